"""Page tiling (W01)."""

from dv.contract import contract

K = 'Patro.GraphicEngine.Painter.Painter'
T = K + ':Tiler.'
FIGURE_MARGIN = 2   # mm, promised around each page

class Paper:
    """a sheet of any size (mm)"""
    def __init__(self, width, height, margin):
        self.width, self.height, self.margin = width, height, margin

def tiler(c, columns, rows, margin=True):
    """a drawing that needs so many columns and rows of a sheet of any size"""
    I = c.cls('IntervalArithmetic.Interval2D')
    aw, ah, m = c.real('aw', pos=True), c.real('ah', pos=True), c.real('margin', sample=(0, 400), nonneg=True)
    # any sheet that is larger than its margins
    w, h = 10*aw + 2*(m + FIGURE_MARGIN), 10*ah + 2*(m + FIGURE_MARGIN)
    c.robust(aw, ah, tol=1e-1)
    e = c.real('enlarge', sample=(0, 50), nonneg=True)
    x, y = c.reals('x', 'y')
    if c.symbolic:
        lx, ly = c.real('lx', nonneg=True), c.real('ly', nonneg=True)
        c.assume(lx + 2*e > (columns - 1)*aw, lx + 2*e <= columns*aw)
        c.assume(ly + 2*e > (rows - 1)*ah, ly + 2*e <= rows*ah)
    else:
        lx, ly = c.real('fx', lo=0, hi=6)*aw, c.real('fy', lo=0, hi=6)*ah
        for u, a in (((lx + 2*e), aw), ((ly + 2*e), ah)):
            q = u/a
            c.assume(0 < q < 60)
            c.robust(q - round(q), tol=1e-6)
    box = I((x, x + lx), (y, y + ly))
    paper = Paper(w, h, m)
    return box, paper, (x - e, y - e), (x + lx + e, y + ly + e), (aw, ah), e

def corners(i):
    return i.x.inf, i.y.inf, i.x.sup, i.y.sup

def judge(c, tiles, low, high, area, old, box):
    grid = {}
    for interval, r, k in tiles:
        c.ensure('each position once', (r, k) not in grid)
        grid[r, k] = corners(interval)
    rows, columns = max(r for r, k in grid) + 1, max(k for r, k in grid) + 1
    c.ensure('whole grid', set(grid) == {(r, k) for r in range(rows) for k in range(columns)})
    aw, ah = area
    for (r, k), (x0, y0, x1, y1) in grid.items():
        c.ensure('page fits the printable area', c.and_(c.eq(x1 - x0, aw), c.eq(y1 - y0, ah)))
        c.ensure('page of its column', c.eq(x0, low[0] + k*aw))
        c.ensure('page of its row', c.eq(y0, low[1] + r*ah))
        if k:
            c.ensure('neighbours share the edge', c.and_(c.eq(x0, grid[r, k - 1][2]), c.eq(y0, grid[r, k - 1][1])))
        if r:
            c.ensure('neighbours share the edge', c.and_(c.eq(y0, grid[r - 1, k][3]), c.eq(x0, grid[r - 1, k][0])))
    last = grid[rows - 1, columns - 1]
    c.ensure('the drawing is covered', c.and_(c.eq(grid[0, 0][0], low[0]), c.eq(grid[0, 0][1], low[1]), c.ge(last[2], high[0]), c.ge(last[3], high[1])))
    c.ensure('no page without drawing', c.and_(c.lt(last[0], high[0]), c.lt(last[1], high[1])))
    c.ensure_same('box kept', corners(box), old)

def tiles_of(c, n, m):
    box, paper, low, high, area, e = tiler(c, n, m)
    old = corners(box)
    t = c.call(c.mod(K).Tiler, box, paper, e)
    tiles = c.call(lambda: list(t))
    if c.symbolic:
        c.ensure('number of pages', len(tiles) == n*m)
    judge(c, tiles, low, high, area, old, box)
    return t, tiles, low, high, area, old, box

@contract('W01', [T + '__init__', T + '__iter__'], bounded='drawings of up to 4 by 4 pages of any size', deadline=400)
def tiles(c):
    """The pages of a drawing: cells of one grid, over the whole drawing."""
    t, first, low, high, area, old, box = tiles_of(c, c.choice('columns', 1, 2, 3, 4), c.choice('rows', 1, 2, 3, 4))
    if len(first) <= 4:
        again = c.call(lambda: list(t))
        c.ensure('same pages again', len(again) == len(first))
        judge(c, again, low, high, area, old, box)

@contract('W01', [T + '__init__', T + '__iter__'], bounded='real formats, up to 2 by 2 pages')
def tile_sheets(c):
    """Real paper formats, in both orientations."""
    I = c.cls('IntervalArithmetic.Interval2D')
    margin = c.real('margin', lo=0, hi=10)
    p = c.cls('Patro.GraphicEngine.Painter.Paper.PaperSize')(c.choice('format', 'A4', 'B5'), c.choice('orientation', 'portrait', 'landscape'), margin)
    aw, ah = (p.width - 2*(margin + FIGURE_MARGIN))/10, (p.height - 2*(margin + FIGURE_MARGIN))/10
    x, y = c.reals('x', 'y')
    lx, ly = c.real('lx', pos=True), c.real('ly', pos=True)
    if not c.symbolic:
        c.robust((lx + 2)/aw - round((lx + 2)/aw), (ly + 2)/ah - round((ly + 2)/ah), tol=1e-6)
    c.assume(lx + 2 <= 2*aw, ly + 2 <= 2*ah)
    box = I((x, x + lx), (y, y + ly))
    old = corners(box)
    tiles = c.call(lambda: list(c.mod(K).Tiler(box, p)))
    judge(c, tiles, (x - 1, y - 1), (x + lx + 1, y + ly + 1), (aw, ah), old, box)

class AnyRange:
    """any one step of a loop whose steps do not depend on each other (see independent)"""
    def __init__(self, c):
        self.c, self.seen = c, []
    def __call__(self, *args):
        n, = args
        i = self.c.int(f'step{len(self.seen)}', lo=0)
        self.c.assume(i < n)
        self.seen.append((i, n))
        return [i]

@contract('W01', [T + '__init__', T + '__iter__'])
def tiles_any_number(c):
    """Any number of pages: any cell of the grid, and the numbers of columns and rows."""
    from dv.loops import independent
    m = c.mod(K)
    if not c.symbolic:
        tiles_of(c, None, None)
        return
    why = independent(m.Tiler.__iter__)
    if why:
        c.not_applicable(why)
    I = c.cls('IntervalArithmetic.Interval2D')
    aw, ah, g = c.real('aw', pos=True), c.real('ah', pos=True), c.real('margin', lo=0)
    w, h = 10*aw + 2*(g + FIGURE_MARGIN), 10*ah + 2*(g + FIGURE_MARGIN)
    e, x, y = c.real('enlarge', lo=0), c.real('x'), c.real('y')
    lx, ly = c.real('lx', nonneg=True), c.real('ly', nonneg=True)
    c.assume(lx + e > 0, ly + e > 0)
    box = I((x, x + lx), (y, y + ly))
    steps = AnyRange(c)
    m.range = steps
    try:
        tiles = c.call(lambda: list(m.Tiler(box, Paper(w, h, g), e)))
    finally:
        del m.range
    if len(tiles) != 1 or len(steps.seen) != 2:
        c.not_applicable('the pages are not enumerated by two loops over ranges')
    (t, r, k), = tiles
    rows, columns = (next(n for i, n in steps.seen if i is j) for j in (r, k))
    x0, y0, x1, y1 = corners(t)
    c.ensure_same('cell of the grid', (x0, y0, x1, y1), (x - e + k*aw, y - e + r*ah, x - e + (k + 1)*aw, y - e + (r + 1)*ah))
    c.ensure('covered', c.and_(columns*aw >= lx + 2*e, rows*ah >= ly + 2*e))
    c.ensure('no page without drawing', c.and_((columns - 1)*aw < lx + 2*e, (rows - 1)*ah < ly + 2*e))
