"""Water that moves over a terrain one cell at a time, in an order drawn by the scheduler: the reference for the terrain products."""
import numpy as np

DELTA = [(-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1)]
NODIR = 8


class Lost(Exception):
    pass


def neighbours(r, c, R, C):
    for dr, dc in DELTA:
        if 0 <= r + dr < R and 0 <= c + dc < C:
            yield r + dr, c + dc


def relax(dem, rng, short=None, diag=None):
    """Water everywhere that sinks, cell by cell in random order, until nothing changes any more.

    short/diag None: a cell sinks to its lowest neighbour or its ground; else with these minimum steps."""
    R, C = dem.shape
    flat = short is None
    z = dem.astype(np.float32 if flat else np.float64)
    w = np.full((R, C), np.inf, dtype=z.dtype)
    w[0, :], w[-1, :], w[:, 0], w[:, -1] = z[0, :], z[-1, :], z[:, 0], z[:, -1]
    z, w = z.tolist(), w.tolist()
    todo = [(r, c) for r in range(1, R - 1) for c in range(1, C - 1)]
    todo = [(r, c) for r, c in todo if r in (1, R - 2) or c in (1, C - 2)]
    rng.shuffle(todo)
    inside = set(todo)
    steps = 0
    while todo:
        # mostly in waves, sometimes any waiting cell
        k = rng.randrange(len(todo)) if rng.random() < 0.2 else rng.randrange(min(len(todo), 8))
        r, c = todo[k]
        todo[k] = todo[-1]
        todo.pop()
        inside.discard((r, c))
        steps += 1
        if w[r][c] <= z[r][c]:
            continue
        m = w[r][c]
        for i, (dr, dc) in enumerate(DELTA):
            v = w[r + dr][c + dc]
            if not flat:
                v += diag if i % 2 else short
            if v < m:
                m = v
        if m < z[r][c]:
            m = z[r][c]
        if m != w[r][c]:
            w[r][c] = m
            for dr, dc in DELTA:
                n = (r + dr, c + dc)
                if 0 < n[0] < R - 1 and 0 < n[1] < C - 1 and n not in inside and w[n[0]][n[1]] > z[n[0]][n[1]]:
                    inside.add(n)
                    todo.append(n)
    return np.array(w, dtype=np.float32 if flat else np.float64), steps


def step(fd, cell):
    d = int(fd[cell[0]][cell[1]])
    if not 0 <= d < 8:
        return None
    dr, dc = DELTA[d]
    return cell[0] + dr, cell[1] + dc


def inside(shape, cell):
    return cell is not None and 0 <= cell[0] < shape[0] and 0 <= cell[1] < shape[1]


def walk(fd, cell):
    """all cells a parcel visits; raises Lost when it does not get off the raster"""
    shape = (len(fd), len(fd[0]))
    out = []
    limit = shape[0] * shape[1]
    while inside(shape, cell):
        out.append(cell)
        if len(out) > limit:
            raise Lost('a parcel goes in circles at %s' % (cell,))
        nxt = step(fd, cell)
        if nxt is None:
            raise Lost('a parcel is stuck at %s' % (cell,))
        cell = nxt
    return out


def parcels(fd, labels, rng):
    """One parcel per cell; random parcels move one cell at a time.

    Returns (how many parcels visited each cell, first label each parcel met, moves)"""
    fd = fd.tolist()
    lab = labels.tolist() if labels is not None else None
    R, C = len(fd), len(fd[0])
    visits = [[0] * C for _ in range(R)]
    first = np.zeros((R, C), dtype=np.int64)
    live = [((r, c), (r, c)) for r in range(R) for c in range(C)]
    moves, limit = 0, (R * C) * (R * C + 1)
    while live:
        # a parcel gets a few steps at a time
        k = rng.randrange(len(live))
        origin, cell = live[k]
        for _ in range(rng.choice([1, 1, 3, 1000])):
            visits[cell[0]][cell[1]] += 1
            if lab is not None and not first[origin] and lab[cell[0]][cell[1]]:
                first[origin] = lab[cell[0]][cell[1]]
            moves += 1
            if moves > limit:
                raise Lost('parcels go in circles')
            nxt = step(fd, cell)
            if nxt is None:
                raise Lost('a parcel is stuck at %s' % (cell,))
            cell = nxt
            if not (0 <= cell[0] < R and 0 <= cell[1] < C):
                cell = None
                break
        if cell is None:
            live[k] = live[-1]
            live.pop()
        else:
            live[k] = (origin, cell)
    return np.array(visits), first, moves


def components(mask, rng):
    """8-connected components, merged in random order; {frozenset of cells}"""
    R, C = mask.shape
    cells = [(r, c) for r in range(R) for c in range(C) if mask[r, c]]
    up = {x: x for x in cells}

    def root(x):
        while up[x] != x:
            up[x] = up[up[x]]
            x = up[x]
        return x
    rng.shuffle(cells)
    for x in cells:
        for n in neighbours(x[0], x[1], R, C):
            if n in up:
                up[root(n)] = root(x)
    out = {}
    for x in cells:
        out.setdefault(root(x), set()).add(x)
    return [frozenset(v) for v in out.values()]


def relax_at_once(dem, short=None, diag=None):
    """relax, with all cells sinking at the same time (a schedule for large terrains)"""
    flat = short is None
    z = dem.astype(np.float32 if flat else np.float64)
    w = np.full(z.shape, np.inf, dtype=z.dtype)
    w[0, :], w[-1, :], w[:, 0], w[:, -1] = z[0, :], z[-1, :], z[:, 0], z[:, -1]
    R, C = z.shape
    steps = 0
    while True:
        m = w[1:-1, 1:-1].copy()
        for i, (dr, dc) in enumerate(DELTA):
            v = w[1 + dr:R - 1 + dr, 1 + dc:C - 1 + dc]
            np.minimum(m, v if flat else v + (diag if i % 2 else short), out=m)
        np.maximum(m, z[1:-1, 1:-1], out=m)
        steps += m.size
        if (m == w[1:-1, 1:-1]).all():
            return w, steps
        w[1:-1, 1:-1] = m


def parcels_at_once(fd, labels):
    """parcels, all of them moving at the same time"""
    R, C = fd.shape
    n = R * C
    if (fd > 7).any():
        raise Lost('a parcel is stuck at %s' % (tuple(np.argwhere(fd > 7)[0]),))
    d = np.array(DELTA)
    rr, cc = np.indices((R, C))
    r, c = rr + d[fd.astype(int), 0], cc + d[fd.astype(int), 1]
    nxt = np.where((r >= 0) & (r < R) & (c >= 0) & (c < C), r * C + c, -1).ravel()
    lab = labels.ravel()
    at = np.arange(n)
    origin = np.arange(n)
    visits, first, moves = np.zeros(n, dtype=np.int64), np.zeros(n, dtype=np.int64), 0
    for _ in range(n + 1):
        if not len(at):
            return visits.reshape(R, C), first.reshape(R, C), moves
        visits += np.bincount(at, minlength=n)
        moves += len(at)
        new = first[origin] == 0
        first[origin[new]] = lab[at[new]]
        at = nxt[at]
        origin, at = origin[at >= 0], at[at >= 0]
    raise Lost('parcels go in circles')
