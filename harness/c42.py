"""The spatial index (Plane) and the relations between boxes."""
from symex.hapi import Case
from pdfmajor.utils.generic import Plane, uniq, csort, pick, choplist, nunpack
from pdfmajor.utils.text import vecBetweenBoxes
from pdfmajor.utils import Bbox
from pdfmajor.interpreter.commands.state.layout._base import LTComponent

ASSUMPTIONS = ['integer grid sizes; coordinates are integers or exact rationals within two or three grid cells of the origin, on both sides of it', 'up to three objects, up to four operations; boxes do not change while stored',
               'boxes and areas have x0 <= x1 and y0 <= y1; overlap means a common interior point (or an empty box strictly inside the other)']


def comp(x0, y0, x1, y1):
    return LTComponent(Bbox(x0, y0, x1, y1))


def span(h, name, num, lo, hi):
    f = h.real if num == 'real' else h.int
    a = f(name + '0', lo, hi)
    b = f(name + '1', lo, hi)
    h.assume(a <= b)
    return a, b


def meets(h, a, b):
    """spans that overlap"""
    return h.and_(a[1] > b[0], b[1] > a[0])


def found(h, plane, obj, area):
    """number of times obj is found"""
    return len([o for o in plane.find(area) if o is obj])


def one(h, num, axis, d, lo, hi, box):
    """one object, one area; one axis symbolic, the other fixed"""
    p = plane_box = (-60, -60, 60, 60) if box is None else box
    s = span(h, 'obj', num, lo, hi)
    q = span(h, 'area', num, lo, hi)
    o = comp(s[0], 1, s[1], 9) if axis == 'x' else comp(1, s[0], 9, s[1])
    area = (q[0], 0, q[1], 5) if axis == 'x' else (0, q[0], 5, q[1])
    plane = Plane(p, gridsize=d)
    plane.add(o)
    h.check(o in plane and len(plane) == 1 and list(plane) == [o], 'an_added_object_is_not_in_the_index')
    n = found(h, plane, o, area)
    b = (p[0], p[2]) if axis == 'x' else (p[1], p[3])
    want = h.and_(meets(h, s, q), meets(h, s, b), meets(h, q, b))
    if n:
        h.check(n == 1, 'an_object_is_found_more_than_once')
        h.check(want, 'an_object_outside_the_area_is_found')
        h.reach('found')
    else:
        h.check(h.not_(want), 'an_object_in_the_area_is_not_found')
        h.reach('missing')


def corner(h, d, lo, hi):
    """both axes"""
    x = span(h, 'x', 'int', lo, hi)
    y = span(h, 'y', 'int', lo, hi)
    o = comp(x[0], y[0], x[1], y[1])
    qx = (h.int('qx', lo, hi), 0)
    qy = (0, h.int('qy', lo, hi))
    h.assume(qx[0] <= qx[1])
    h.assume(qy[0] <= qy[1])
    plane = Plane((-100, -100, 100, 100), gridsize=d)
    plane.add(o)
    n = found(h, plane, o, (qx[0], qy[0], qx[1], qy[1]))
    want = h.and_(meets(h, x, qx), meets(h, y, qy))
    h.check(n <= 1, 'an_object_is_found_more_than_once')
    h.check(h.eq(n, h.ite(want, 1, 0)), 'the_area_gives_other_objects')
    h.reach('found' if n else 'missing')


def history(h, n, steps, d):
    """insertions and removals in any order"""
    objs = []
    spans = []
    for i in range(n):
        a = h.int('at%d' % i, -d, d)
        spans.append((a, a + (3, d + 2, 0)[i]))
        objs.append(comp(a, 1, spans[i][1], 9))
    plane = Plane((-200, -200, 200, 200), gridsize=d)
    inside = []
    for k in range(steps):
        i = h.choice('which%d' % k, tuple(range(n)))
        op = h.choice('op%d' % k, ('add', 'remove', 'extend'))
        if op == 'remove':
            h.assume(i in inside)
            plane.remove(objs[i])
            inside.remove(i)
        else:
            if op == 'add':
                plane.add(objs[i])
            else:
                plane.extend([objs[i], objs[i - 1]])
            for j in (i,) if op == 'add' else (i, (i - 1) % n):
                if j not in inside:
                    inside.append(j)
    h.check(len(plane) == len(inside), 'another_number_of_objects')
    h.check([objs.index(o) for o in plane] == inside, 'another_list_of_objects')
    q = h.int('area', -d, d)
    q = (q, q + 4)
    got = [objs.index(o) for o in plane.find((q[0], 0, q[1], 5))]
    for i in range(n):
        h.check((objs[i] in plane) == (i in inside), 'membership_does_not_follow_the_operations')
        c = got.count(i)
        h.check(c <= 1, 'an_object_is_found_more_than_once')
        if i not in inside:
            h.check(c == 0, 'a_removed_object_is_found')
        else:
            h.check(h.eq(c, h.ite(meets(h, spans[i], q), 1, 0)), 'the_area_gives_other_objects')
    h.reach('asked')


def relations(h, num, vertical):
    """distance and overlap along an axis"""
    s = span(h, 'a', num, -9, 9)
    q = span(h, 'b', num, -9, 9)
    if vertical:
        a, b = comp(0, s[0], 1, s[1]), comp(50, q[0], 60, q[1])
        is_, dist, over = a.is_voverlap(b), a.vdistance(b), a.voverlap(b)
        back = b.is_voverlap(a), b.vdistance(a), b.voverlap(a)
    else:
        a, b = comp(s[0], 0, s[1], 1), comp(q[0], 50, q[1], 60)
        is_, dist, over = a.is_hoverlap(b), a.hdistance(b), a.hoverlap(b)
        back = b.is_hoverlap(a), b.hdistance(a), b.hoverlap(a)
    h.check(h.and_(h.eq(bool(is_), bool(back[0])), h.eq(dist, back[1]), h.eq(over, back[2])), 'the_relation_is_not_symmetric')
    lo = h.ite(s[0] > q[0], s[0], q[0])
    hi = h.ite(s[1] < q[1], s[1], q[1])
    common = hi - lo
    h.check(h.eq(bool(is_), common >= 0), 'the_spans_overlap_or_not')
    h.check(h.eq(dist, h.ite(common >= 0, 0, -common)), 'another_distance')
    inside = h.or_(h.and_(s[0] < q[0], q[1] < s[1]), h.and_(q[0] < s[0], s[1] < q[1]))
    h.check(h.implies(common < 0, h.eq(over, 0)), 'spans_apart_overlap')
    h.check(h.implies(h.and_(common >= 0, h.not_(inside)), h.eq(over, common)), 'another_overlap')
    h.check(h.implies(inside, over >= common), 'another_overlap')
    h.reach('compared')


def size(h, num):
    s = span(h, 'a', num, -9, 9)
    q = span(h, 'b', num, -9, 9)
    c = comp(s[0], q[0], s[1], q[1])
    h.check(h.and_(h.eq(c.width, s[1] - s[0]), h.eq(c.height, q[1] - q[0])), 'another_size')
    h.check(h.eq(bool(c.is_empty()), h.or_(h.eq(s[0], s[1]), h.eq(q[0], q[1]))), 'a_box_is_empty_or_not')
    h.check(h.and_(h.eq(c.x0, s[0]), h.eq(c.x1, s[1]), h.eq(c.y0, q[0]), h.eq(c.y1, q[1])), 'another_box')
    h.reach('compared')


def vector(h, num):
    """the vector between two boxes"""
    ax, ay = span(h, 'ax', num, -9, 9), span(h, 'ay', num, -9, 9)
    bx, by = span(h, 'bx', num, -9, 9), span(h, 'by', num, -9, 9)
    for s in (ax, ay, bx, by):
        h.assume(s[0] < s[1])
    (vx, vy) = vecBetweenBoxes(comp(ax[0], ay[0], ax[1], ay[1]), comp(bx[0], by[0], bx[1], by[1]))

    def gap(s, q):
        return h.ite(s[1] < q[0], q[0] - s[1], h.ite(q[1] < s[0], s[0] - q[1], 0))
    apart = h.not_(h.and_(meets(h, ax, bx), meets(h, ay, by)))
    h.check(h.implies(apart, h.and_(h.eq(vx, gap(ax, bx)), h.eq(vy, gap(ay, by)))), 'another_vector_between_boxes_apart')
    h.check(h.implies(h.not_(apart), h.and_(h.eq(2 * vx, ax[0] + ax[1] - bx[0] - bx[1]), h.eq(2 * vy, ay[0] + ay[1] - by[0] - by[1]))), 'another_vector_between_overlapping_boxes')
    h.reach('compared')


def lists(h, n):
    """the helpers for sequences"""
    xs = [h.int('x%d' % i, 0, 3) for i in range(n)]
    u = list(uniq(xs))
    for i, x in enumerate(xs):
        h.check(x in u, 'uniq_loses_an_element')
    for i in range(len(u)):
        for j in range(i):
            h.check(u[i] != u[j], 'uniq_keeps_a_duplicate')
    first = [x for i, x in enumerate(xs) if x not in xs[:i]]
    h.check(u == first, 'uniq_changes_the_order')
    s = csort(list(range(n)), key=lambda i: xs[i])
    h.check(sorted(s) == list(range(n)), 'csort_loses_an_element')
    for a, b in zip(s, s[1:]):
        h.check(h.or_(xs[a] < xs[b], h.and_(h.eq(xs[a], xs[b]), a < b)), 'csort_does_not_sort')
    p = pick(list(range(n)), lambda i: xs[i])
    if n:
        for i in range(n):
            h.check(h.or_(xs[i] < xs[p], h.and_(h.eq(xs[i], xs[p]), p <= i)), 'pick_takes_another_element')
    else:
        h.check(p is None, 'pick_takes_an_element_from_nothing')
    for k in (1, 2, 3):
        c = list(choplist(k, xs))
        h.check(c == [tuple(xs[i:i + k]) for i in range(0, n - k + 1, k)], 'choplist_groups_otherwise')
    b = h.bytes('b', n)
    v = 0
    for c in b:
        v = v * 256 + c
    h.check(h.eq(nunpack(b), v), 'nunpack_reads_another_number')
    h.reach('done')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for axis in ('x', 'y'):
        for num, d, lo, hi in (('int', 3, -5, 5), ('real', 2, -3, 3), ('int', 50, -70, 70)) + ((('int', 1, -4, 4), ('real', 50, -120, 120), ('int', 7, -30, 30)) if deep else ()):
            for box in (None, (0, 0, 40, 40), (-2, -2, 2, 2)):
                if box and (d == 50 or num == 'real') and not deep:
                    continue
                out.append(Case('one-%s-%s-%d%s' % (axis, num, d, '' if box is None else '-box%d' % box[2]), one, dict(num=num, axis=axis, d=d, lo=lo, hi=hi, box=box),
                                bounds={'coordinates': [lo, hi], 'grid': d}, reach=['found', 'missing']))
    out.append(Case('corner-3', corner, dict(d=3, lo=-4 if deep else -3, hi=4 if deep else 3), bounds={'coordinates': [-4, 4], 'grid': 3}, reach=['found', 'missing']))
    if deep:
        out.append(Case('corner-2', corner, dict(d=2, lo=-4, hi=4), bounds={'coordinates': [-4, 4], 'grid': 2}, reach=['found', 'missing']))
    for n, steps in ((1, 3), (1, 4), (2, 2), (2, 3)) + (((2, 4), (3, 3), (3, 4)) if deep else ()):
        out.append(Case('history-%d-%d' % (n, steps), history, dict(n=n, steps=steps, d=5), bounds={'objects': n, 'operations': steps}, reach=['asked']))
    for num in ('int', 'real'):
        for v in (False, True):
            out.append(Case('relations-%s-%s' % (num, 'v' if v else 'h'), relations, dict(num=num, vertical=v), bounds={'coordinates': [-9, 9]}, reach=['compared']))
        out.append(Case('size-%s' % num, size, dict(num=num), bounds={'coordinates': [-9, 9]}, reach=['compared']))
        if num == 'real' or deep:
            out.append(Case('vector-%s' % num, vector, dict(num=num), bounds={'coordinates': [-9, 9]}, reach=['compared']))
    for n in range(0, 5 if deep else 4):
        out.append(Case('lists-%d' % n, lists, dict(n=n), bounds={'elements': n}, reach=['done']))
    return out
