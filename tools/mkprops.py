import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw))
    P.append(d)
G='Patro/GeometryEngine/'
p('V01','Plane vector algebra is exact and never disturbs its operands',
 'For every pair of plane vectors and every scalar, sum, difference, scaling, division, negation, dot product, cross product, quarter turns, general rotation, component permutation, scaling per axis and copies equal their component-wise mathematical definition. An operation changes a vector only when it is an in-place operation, and then only the left operand. A returned vector never shares storage with an operand: changing one afterwards leaves the other unchanged.',
 ['inputs','histories'],'all real components and scalars; all later in-place changes of a result or operand',
 'The tests evaluate a few literal vectors; they cannot cover every component value nor show the absence of shared storage for later mutation histories.',
 [G+'Vector.py'],[('component-wise operators and clones','Vector.py: Vector2DBase, Vector2DFloatBase, Vector2D, HomogeneousVector2D')])
p('V02','Vector metrics, angles and projections agree with Euclidean geometry',
 'For all plane vectors, the magnitude is the Euclidean norm, normalising gives a unit vector of the same direction, and the cosine, sine, projection and signed deviation relative to another non-null vector satisfy their Euclidean definitions, so that projection and deviation rebuild the vector. Vectors built from polar or elliptic coordinates have the coordinates these define. Parallelism and orthogonality answers are symmetric and true for every exactly parallel, respectively orthogonal, pair of non-null vectors.',
 ['inputs'],'all real components, radii and angles',
 'Tests sample a few angles; the identities must hold for every direction, quadrant and magnitude.',
 [G+'Vector.py','Patro/Common/Math/Functions.py'],[('magnitude, angle and projection methods','Vector.py: Vector2DFloatBase'),('clamping helper','Functions.py: trignometric_clamp')])
p('G01','Lines: incidence, projection, distance and intersection are consistent',
 'For every line, a point evaluated at an abscissa lies on the line, the projection of any point lies on the line and the rest is orthogonal to it, and the reported distance is the distance to that projection. Two lines report an intersection exactly when they are not parallel, and the reported point lies on both. Derived lines (parallel at a distance, orthogonal, reversed, shifted) have the direction and offset they promise and leave the source line unchanged.',
 ['inputs'],'all points and non-null direction vectors, all abscissae',
 'Only a handful of axis-aligned or unit-direction lines are tested, so errors that vanish for unit direction vectors pass.',
 [G+'Line.py',G+'Vector.py'],[('line parametrisation','Line.py: Line2D.interpolate, projected_point, distance_to_line'),('intersection','Line.py: Line2D.intersection_abscissae, intersection')])
p('G02','Segments: intersection and distance answers are geometrically true',
 'Two segments in general or touching position are reported as crossing exactly when they share a point, and a reported intersection point lies on both supporting lines. The length, centre, interpolation, containment and side tests of a segment agree with its two end points. The distance from a point to a segment is the smallest distance to any point of the segment.',
 ['inputs'],'all segments with distinct end points and all points',
 'Existing tests cover a few crossings; degenerate and oblique configurations form a continuum.',
 [G+'Segment.py',G+'Line.py',G+'Triangle.py'],[('orientation based crossing test','Segment.py: Segment2D.intersect_with'),('distance','Segment.py: Segment2D.distance_to_point')])
p('G03','Triangles and rectangles: measures and inside tests are exact',
 'For every non-flat triangle, the area is half the absolute cross product of its sides, the perimeter is the sum of its side lengths, and a point is reported inside exactly when it is a convex combination of the vertices, whatever the orientation of the vertices; a flat triangle is refused. For every axis-aligned rectangle, corners, edges, area, perimeter and the inside test agree with the interval product it denotes, and each alternative constructor yields the rectangle it describes.',
 ['inputs'],'all vertex triples and orientations, all corner pairs and points',
 'Tests use one or two triangles; both orientations, boundaries and all constructors are not exercised.',
 [G+'Triangle.py',G+'Rectangle.py',G+'Primitive.py'],[('orientation and area','Triangle.py'),('rectangle','Rectangle.py')])
p('G04','Bounding boxes are the smallest boxes enclosing the defining points',
 'For every primitive defined by points, whatever their number and order, its bounding box contains all defining points and each side touches one of them; for circles it is the exact extent. Boxes of collections enclose every member and computing a box never changes the primitive or a box handed out earlier.',
 ['inputs','histories'],'all primitives and any number of points; repeated queries',
 'A minimum over unboundedly many points in any order cannot be settled by samples; aliasing shows only in later queries.',
 [G+'BoundingBox.py',G+'Primitive.py',G+'Conic.py'],[('union of point boxes','BoundingBox.py: bounding_box_from_points'),('primitive boxes','Primitive.py: bounding_box')])
p('T01','Affine transformations compose and classify correctly',
 'For all plane transformations, applying a composition equals applying its factors one after the other in the documented order, the identity is neutral, and rotations, scalings, translations, reflections, shears and rotations about a point move every point as their names promise. The kind recorded for a transformation or for any composition describes the map it actually performs, so measures scaled through it are correct. Composing never changes the factors except in place.',
 ['inputs','histories'],'all parameters, all points, all composition chains',
 'The tests compose a few fixed maps; the algebra must hold for all parameters and for every pairing of kinds.',
 [G+'Transformation.py',G+'Vector.py'],[('composition and kinds','Transformation.py: Transformation.__mul__, _mul_type'),('constructors','Transformation.py: AffineTransformation2D')])
p('T02','Transforming or cloning a shape keeps all its derived answers coherent',
 'For every shape and every history of queries, clones and in-place affine transformations, each query answers as a freshly built shape with the same defining points would: no answer computed earlier survives a change. A clone equals its source in type and every defining attribute, and changing one never changes the other. Transforming a copy leaves the source untouched and maps each defining point by the transformation.',
 ['histories','inputs'],'all shape kinds, all histories of query, clone and transformation',
 'Stale caches and aliasing only show for particular sequences of query and mutation, which the tests never perform.',
 [G+'Primitive.py',G+'Polygon.py',G+'Polyline.py',G+'Path.py',G+'Conic.py',G+'Spline.py'],[('point storage and transformation','Primitive.py: Primitive, PrimitiveNP'),('lazy caches','Polygon.py, Polyline.py, Path.py')])
p('B01','Bezier curves: evaluation, subdivision, elevation and tangents agree',
 'For every quadratic or cubic Bezier curve and every parameter, the evaluated point is the Bernstein combination of its control points and the tangent is a positive multiple of its derivative. Splitting at one or two parameters yields curves tracing exactly the corresponding parts, degree elevation traces the same curve, and conversion to polynomial or spline form preserves every point. End parameters give the end points.',
 ['inputs'],'all control points and all parameters in [0, 1], including repeated control points and ends',
 'Tests evaluate a few curves at a few parameters; the identities hold over a continuum of control points and parameters.',
 [G+'Bezier.py',G+'Spline.py'],[('evaluation and split','Bezier.py: QuadraticBezier2D, CubicBezier2D')])
p('B02','Splines: evaluation, knot insertion and Bezier extraction keep the curve',
 'For every uniform B-spline curve and parameter of its domain, evaluation equals the Cox-de Boor combination of its control points, all evaluation algorithms agree, and basis functions are non-negative and sum to one. Inserting a knot anywhere inside the domain and converting to Bezier pieces give curves tracing exactly the same points. The curve starts and ends at the points the knot vector defines.',
 ['inputs'],'all control points, degrees, knot positions and parameters',
 'Tests plot or sample one spline; span selection and blending must be right for each span, degree and parameter.',
 [G+'Spline.py'],[('knot span, de Boor and insertion','Spline.py: BSpline2D')])
p('L01','Polygons: area, orientation, centroid, perimeter and inside tests are right',
 'For every simple polygon with any number of vertices, area, signed orientation, centroid and perimeter equal their integral definitions and do not depend on which vertex comes first. A point off the boundary is reported inside exactly when the polygon winds around it, for both vertex orientations. Edges run cyclically through all vertices exactly once.',
 ['inputs'],'all vertex lists of any length, both orientations, all query points',
 'Tests use one convex polygon in one orientation; vertex count and positions are unbounded.',
 [G+'Polygon.py',G+'Segment.py','Patro/Common/IterTools.py'],[('shoelace sums','Polygon.py: area, barycenter'),('winding number','Polygon.py: is_point_inside')])
p('L02','The convex hull encloses all points and uses only extreme input points',
 'For every finite set of points, the hull is a convex polygon whose vertices are input points, it contains every input point, and no hull vertex can be dropped. The result is the same set of vertices for every order of the input, including repeated points and points aligned with the start point, and the input is left unchanged.',
 ['inputs'],'all finite point sets and orders, with repetitions and alignments',
 'One random set cannot exercise ties in the angular sort or repeated points.',
 [G+'Polygon.py',G+'Triangle.py'],[('Graham scan','Polygon.py: convex hull functions')])
p('C01','Circles and ellipses: points, membership, intersections and arcs satisfy the equation',
 'Every point reported on a circle or an ellipse satisfies its equation, membership tests agree with the equation, tangents are orthogonal to the radius, and area, perimeter and eccentricity follow the radii, including for rotated and translated ellipses. Reported intersections of a circle with a line or circle lie on both, and none is missed. An ellipse built from an end-point arc description passes through both end points, growing radii that are too small.',
 ['inputs'],'all centres, radii, angles, domains, lines and points',
 'Tests check one circle and one ellipse; branches depend on sign, tangency and rotation in ways only a continuum covers.',
 [G+'Conic.py',G+'Mixin.py'],[('circle','Conic.py: Circle2D'),('ellipse frame','Conic.py: Ellipse2D')])
p('H01','Paths stay contiguous with the coordinates each command denotes',
 'For every sequence of path commands, relative or absolute, each part starts where the previous part stops and stops at the coordinate the command denotes, closing returns to the start, and copies keep every part, radius and closing mark. Transforming a path transforms each part, and every query afterwards agrees with the transformed coordinates. A fillet between two straight parts is tangent to both with the requested radius.',
 ['inputs','histories'],'all command sequences, coordinates, radii, and histories of query and transformation',
 'Tests only build a sample; relative/absolute mixes, vertical/horizontal commands and later transformation are not asserted.',
 [G+'Path.py'],[('part chaining','Path.py: Path2D, LinearSegment, PathPart'),('fillet','Path.py: PathSegment bulge')])
p('X01','DXF bulge arcs connect their end points with the angle the bulge encodes',
 'For every pair of distinct vertices and every non-zero bulge of a DXF polyline, the derived radius, sagitta, centre and angles describe the circular arc that joins both vertices, whose included angle is four times the arctangent of the bulge and which lies on the side given by the sign of the bulge. A zero bulge gives the straight segment. Closing a polyline joins the last vertex to the first, each vertex pair once.',
 ['inputs'],'all vertex pairs and bulges of both signs, including beyond a semicircle; all vertex counts',
 'Both signs and the branch beyond a semicircle are not asserted by any test.',
 ['Patro/FileFormat/Dxf/Polyline.py'],[('bulge geometry','Polyline.py: PolylineVertex')])
p('M01','Numeric helpers and root finders return exactly what they promise',
 'For all coefficients, the quadratic solver returns every real root and only real roots, falling back to the linear and constant cases, and cubic and quintic solvers delegate consistently. Sign, comparison, clamping, integer rounding and averaging helpers satisfy their order-theoretic definitions for every number, negative and zero included.',
 ['inputs'],'all real coefficients including vanishing leading ones and all real arguments',
 'No test covers degenerate coefficients or negative and zero arguments.',
 ['Patro/Common/Math/Root.py','Patro/Common/Math/Functions.py'],[('quadratic case split','Root.py: quadratic_root'),('helpers','Functions.py')])
p('I01','Sequence iterators enumerate exactly the promised pairs and tuples',
 'For every sequence of any length, the pairwise, closed pairwise, closed and multi-wise iterators produce exactly the consecutive tuples of the sequence, in order, each once, wrapping to the start only in the closed forms. They accept any iterable, the empty and single-element ones included, and never modify it.',
 ['inputs'],'all sequences of all lengths',
 'Tests use one short list; lengths zero, one and window-sized are not reached.',
 ['Patro/Common/IterTools.py'],[('iterators','IterTools.py')])
p('D01','Dependency graphs order every node after what it depends on',
 'For every acyclic graph built from the public operations, the topological order contains each node exactly once and respects every edge, and traversals visit every node reachable from their start exactly once. Roots and leaves are exactly the nodes without incoming, respectively outgoing, edges, ancestors and descendants stay mutually consistent, and a cyclic graph is never silently ordered.',
 ['inputs','histories'],'all graphs and all orders in which nodes and edges are added',
 'Tests build one small graph; sharing, diamonds and insertion order are unbounded.',
 ['Patro/Common/Graph/DirectedAcyclicGraph.py'],[('graph and topological sort','DirectedAcyclicGraph.py')])
p('K01','Automatically assigned identifiers are never issued twice',
 'Whatever the interleaving of threads taking numbers from a shared counter, no number is issued twice and the counter never moves backwards. Two live objects built in one numbering scope never carry the same automatically assigned identifier.',
 ['schedules','histories'],'all thread interleavings and all counter operation sequences',
 'Single-threaded tests cannot exhibit an interleaving between update and read.',
 ['Patro/Common/AtomicCounter.py','Patro/Common/Object.py'],[('locked counter','AtomicCounter.py: AtomicCounter'),('object ids','Object.py')])
p('F01','XML attributes written by an object are read back as the same values',
 'For every XML-mapped class that has a tag and every value of its attributes, writing an object and reading it back yields equal attribute values; absent attributes stay absent and attribute inheritance is preserved. Every documented separator style of numeric lists is accepted on reading.',
 ['inputs'],'all attribute kinds and values, all mapped classes, all separator styles',
 'Tests load one file; they never write and read back and do not vary separators or absent attributes.',
 ['Patro/FileFormat/Xml/Objectivity.py'],[('attribute conversion','Objectivity.py: Attribute classes and metaclass')])
p('F02','SVG transforms, path data and group state are interpreted per the SVG rules',
 'Every SVG transform list denotes the composition of its items in the written order, whatever separators are used, and path data denote the commands and coordinates the SVG grammar prescribes, including repeated, relative and unspaced forms. Style and transformation set on a group apply to its descendants and to nothing after the group closes (composition of opacities, several subpaths and commands after a closing one are not offered). Values that are written are read back unchanged.',
 ['inputs','histories'],'all transform lists, path data strings and nestings of groups',
 'The tests read one file; separator styles, nested groups and multi-item transforms are not asserted.',
 ['Patro/FileFormat/Svg/SvgFormat.py','Patro/FileFormat/Svg/SvgFile.py'],[('transform and path attributes','SvgFormat.py: TransformAttribute, PathDataAttribute'),('render state stack','SvgFile.py')])
p('Q01','Measurements evaluate to the value of their expression, to full precision',
 'For every set of measurements whose expressions refer to each other without a cycle, in any order of definition and evaluation, each evaluated value equals its expression computed from the values it refers to, to floating-point precision (names that mean something else to sympy excepted); a measurement that refers to itself has no value. Names stay unique and valid; a Valentina custom measurement is found by both its names. Saving and loading the set preserves names, texts and values, and so does reading a Valentina file. Expressions of a pattern have the value of the measurements they refer to.',
 ['inputs','histories'],'all acyclic expression sets and definition orders',
 'Tests load one file and print it; chains of references and precision are not checked.',
 ['Patro/Measurement/Measurement.py','Patro/Pattern/Calculator.py'],[('evaluation','Measurement.py')])
p('P01','A sketch evaluates to the construction its operations define',
 'For every sketch, each operation evaluates to the point or curve its construction defines, from the places of the points it names and the values of its expressions: a point of given coordinates; a point at a length from a point towards another one; a point at an angle and a length from a point; the common point of two lines that are not parallel; a point at a length along the normal of a line (a quarter turn counterclockwise) turned by an angle; a point of a circle on a line, on the segment when exactly one common point lies on it; the point with the abscissa of one point and the ordinate of another; a curve between two points with its control points at given angles and lengths from them. In expressions, measurement names are the measured values, Line_A_B the distance and AngleLine_A_B the direction from A to B, CurrentLength the length of the line in hand. Evaluating leaves the other points unchanged, an operation knows exactly the points it depends on, those named in its expressions included, and the bounding box of a sketch is the smallest one that holds its points and control points.',
 ['inputs','histories'],'all positions of points, lengths, angles and measured values, for each operation; points referred to by name, identifier or operation',
 'No test evaluates a sketch; each construction must be right for every position of the points it starts from.',
 ['Patro/Pattern/SketchOperation.py','Patro/Pattern/Sketch.py','Patro/Pattern/Calculator.py'],[('evaluation of operations','SketchOperation.py: eval_internal'),('expressions','Calculator.py: Expression, Calculator')])
p('P02','A pattern written to a Valentina file is read back as the same pattern',
 'For every pattern made of the supported operations (single point, point along a line, end of a line, point on a normal, intersections and contacts, line, interactive spline), writing it to a Valentina file and reading that file in a process whose identifiers are not taken gives the same pattern: unit, path of the measurement file (absolute, or relative to the pattern), pieces in order with their names, and in each piece the same operations in the same order with their kind, identifier, name, label offset, texts of expressions, points referred to, colour and line style (the line style of a spline excepted), so that every point and curve has the same place.',
 ['inputs'],'all operations, expressions, references, label offsets, colours and line styles; several pieces',
 'No test writes and reads back a pattern; each kind of operation and attribute has its own mapping.',
 ['Patro/FileFormat/Valentina/Pattern.py','Patro/FileFormat/Valentina/VitFormat.py'],[('reader and writer','Pattern.py: ValFileReaderInternal, ValFileWriter'),('mapping of operations','VitFormat.py')])
p('S01','Colours convert between their notations without loss',
 'For every colour, the hexadecimal, integer-component and unit-component notations denote the same colour: building a colour from any notation it prints yields an equal colour, and every one of the 256 levels of each component survives the conversions. Equality of colours depends only on the components, and named colours keep their defined value.',
 ['inputs'],'all component values of opaque colours in all notations',
 'Tests check a few colours; truncation affects only some levels.',
 ['Patro/GraphicStyle/Color/__init__.py','Patro/GraphicStyle/Color/ColorDataBase.py'],[('component conversion','Color classes')])
p('U01','Unit conversions are mutually inverse and dimensionally right',
 'Converting a length between millimetre, inch and point and back is the identity, and one inch is 25.4 mm or 72 points for every unit class. Yarn counts convert between every pair of numbering systems consistently with their definition in length per mass, so each conversion is inverse to its opposite and conversions compose. Paper formats report their width and height consistently in every unit and orientation.',
 ['inputs'],'all positive lengths and counts and all pairs of units',
 'There is no test of these conversions; each pair must agree for all values.',
 ['Patro/GraphicEngine/GraphicScene/TypographyUnit.py','Patro/GraphicEngine/Painter/Paper.py','Patro/TextileTechnology/Yarn.py'],[('unit constants','TypographyUnit'),('yarn counts','Yarn.py')])
p('W01','Page tiling covers the whole drawing without gaps',
 'For every drawing extent, paper format and margin smaller than the paper, the tiles cover every point of the drawing, neighbouring tiles share an edge without overlapping, and each tile is exactly the printable area of the paper. Every tile position is produced exactly once.',
 ['inputs'],'all non-empty drawing extents, paper sizes, orientations and margins smaller than the paper',
 'No test exercises the tiler; non-square grids expose index mistakes.',
 ['Patro/GraphicEngine/Painter/Painter.py'],[('tiling','Painter.py: Tiler')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
