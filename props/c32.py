"""C32 - detections are decoded, suppressed and scored the way COCO metrics define them."""
import json
import os
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c15 import scratch

Q = 64          # scores are multiples of 1/64: exact in every float type
PI = 'inference.yolo_eval'


# ---- oracle (branches on symbolic values split the path)
def iou_over(a, b, t, strict):
    """IoU(a, b) > t (strict) or >= t, without a division"""
    iw, ih = omin(a[2], b[2]) - omax(a[0], b[0]), omin(a[3], b[3]) - omax(a[1], b[1])
    if iw <= 0 or ih <= 0:
        return False if strict or t > 0 else True
    inter = iw * ih
    union = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - inter
    n, d = float(t).as_integer_ratio()
    return bool(inter * d > union * n) if strict else bool(inter * d >= union * n)


def omin(a, b):
    return a if a <= b else b


def omax(a, b):
    return a if a >= b else b


def ranked(xs, key):
    out = []
    for x in xs:
        j = len(out)
        while j > 0 and key(x) > key(out[j - 1]):
            j -= 1
        out.insert(j, x)
    return out


def decode(rows, size, conf, iou, max_det):
    """surviving (x1,y1,x2,y2,cls,conf) in order of confidence"""
    H, W = size
    good = []
    for x1, y1, x2, y2, s, c in rows:
        if not s > conf:
            continue
        b = [omax(omin(x1, W), 0), omax(omin(y1, H), 0), omax(omin(x2, W), 0), omax(omin(y2, H), 0)]
        if b[2] > b[0] and b[3] > b[1]:
            good.append(b + [c, s])
    kept = []
    for d in ranked(good, lambda d: d[5]):
        if not any(k[4] == d[4] and iou_over(d, k, iou, True) for k in kept):
            kept.append(d)
    return kept[:max_det]


def ap101(hits, n_gt):
    """101-point interpolated average precision of a ranked list of hits"""
    pts, tp = [], 0
    for i, h in enumerate(hits, 1):
        tp += h
        pts.append((tp, i))
    tot = 0.0
    for t in range(101):
        tot += max([p / i for p, i in pts if p * 100 >= t * n_gt] + [0.0]) if n_gt else 0.0
    return tot / 101


def rematch(dets, gts, thr, ncls):
    """dets: (image, score, class, box); gts: (image, class, box) -> mean AP over the classes with ground truth"""
    aps = []
    for c in range(ncls):
        mine = [g for g in gts if g[1] == c]
        if not mine:
            continue
        used, hits = [], []
        for d in ranked([d for d in dets if d[2] == c], lambda d: d[1]):
            best = None
            for g in mine:
                if g[0] != d[0] or any(g is u for u in used) or not iou_over(d[3], g[2], thr, False):
                    continue
                if best is None or better(d[3], g[2], best[2]):
                    best = g
            hits.append(0 if best is None else 1)
            if best is not None:
                used.append(best)
        aps.append(ap101(hits, len(mine)))
    return sum(aps) / len(aps) if aps else 0.0


def iu(a, b):
    iw, ih = omin(a[2], b[2]) - omax(a[0], b[0]), omin(a[3], b[3]) - omax(a[1], b[1])
    inter = iw * ih if iw > 0 and ih > 0 else 0
    return inter, (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - inter


def better(d, g, h):
    (i, u), (j, v) = iu(d, g), iu(d, h)
    return bool(i * v > j * u)


# ---- inputs
def detections(E, n, p='', y=((0, 8),), x=(-8, 40), classes=(0, 1), smin=1, ymany=False):
    rows = []
    for i in range(n):
        if ymany:
            y1, y2 = E.int(f'{p}ya{i}', -4, 12), E.int(f'{p}yb{i}', -4, 12)
        else:
            y1, y2 = E.choice(f'{p}y{i}', y)
        rows.append([E.int(f'{p}x{i}', *x), y1, E.int(f'{p}w{i}', *x), y2, E.int(f'{p}s{i}', smin, Q) / Q,
                     E.choice(f'{p}c{i}', classes)])
    for i in range(n):
        for j in range(i):
            E.assume(rows[i][4] != rows[j][4])
    return rows


def out_array(E, rows, form='batch', cols=6):
    a = E.np.array([list(r) + [0] * (cols - 6) for r in rows], dtype=np.float32) if rows else E.np.zeros((0, cols), dtype=np.float32)
    return a.reshape(1, len(rows), cols) if form == 'batch' else a


def row_is(E, got, want):
    return E.all(*[E.close(g, w) for g, w in zip(got, want)])


def h_post(E, n, form, max_det, conf, iou, classes, ymany, ys=((0, 8),), cols=6, inside=False, fixw=None):
    Y = E.m(PI)
    H, W = 8 if not ymany else 9, E.int('W', 16, 32)
    rows = detections(E, n, y=ys, classes=classes, ymany=ymany, **(dict(x=(0, 16), smin=20) if inside else {}))
    for r in rows:
        if inside:
            E.assume(r[2] > r[0] if fixw is None else E.eq(r[2], r[0] + fixw))
    kw = {} if max_det is None else {'max_det': max_det}
    r = E.call(Y.yolo_postprocess, out_array(E, rows, form, cols), (H, W), conf, iou, **kw)
    if not r.ok:
        E.fail(f'yolo_postprocess raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
    E.check(len(r.val) == 1, 'one result for the one image')
    got = r.val[0]
    want = decode(rows, (H, W), conf, iou, 10 ** 9 if max_det is None else max_det)
    E.observe('kept', [int(s) for s in got.shape])
    E.check([int(s) for s in got.shape] == [len(want), 7], f'number of kept detections: {list(got.shape)} instead of {len(want)}')
    if len(got) != len(want):
        return
    gl = [[got[i, k] for k in range(7)] for i in range(len(want))]
    for w in want:
        E.check(E.any(*[row_is(E, g, [0, *w]) for g in gl]), 'every surviving detection is a row (0, x1, y1, x2, y2, class, confidence), clipped to the image')


def h_narrow(E, cols):
    Y = E.m(PI)
    r = E.call(Y.yolo_postprocess, E.np.zeros((1, 3, cols), dtype=np.float32) + E.int('v', 1, 9), (8, 16))
    E.check(r.ok and len(r.val) == 1 and [int(s) for s in r.val[0].shape] == [0, 7], 'an output that is no list of detections has none')


def boxes_of(rows):
    return [(r[0], r[1], r[2], r[3]) for r in rows]


def gtbox(E, i, x=(0, 24)):
    return E.int(f'gx{i}', *x), 0, E.int(f'gw{i}', 1, 16), 8


def anns(gts, imgs, ids):
    """COCO annotations of (image index, class index, (x, y, w, h))"""
    return [{'id': 100 + k, 'image_id': imgs[i], 'category_id': ids[c], 'bbox': list(b)} for k, (i, c, b) in enumerate(gts)]


def dets_of(E, per_image, imgs):
    out = []
    for i, rows in enumerate(per_image):
        n = len(rows)
        out.append({'image_id': imgs[i],
                    'boxes': E.np.array([list(b) for b in boxes_of(rows)], dtype=np.float64) if n else E.np.zeros((0, 4)),
                    'scores': E.np.array([r[4] for r in rows], dtype=np.float64) if n else E.np.zeros(0),
                    'labels': E.np.array([r[5] for r in rows], dtype=np.float64) if n else E.np.zeros(0)})
    return out


def pairs(per_image):
    return [(i, r[4], r[5], r[:4]) for i, rows in enumerate(per_image) for r in rows]


def xyxy(gts):
    return [(i, c, (b[0], b[1], b[0] + b[2], b[1] + b[3])) for i, c, b in gts]


def near(a, b):
    return abs(float(a) - float(b)) < 1e-6


def distinct(E, per):
    rows = [r for rs in per for r in rs]
    for i in range(len(rows)):
        for j in range(i):
            E.assume(rows[i][4] != rows[j][4])


def h_metrics(E, nd, ng, ids, thr, nclass, cls_d, cls_g, listed=True, order=None, fixw=None):
    """nd: detections per image; ng: ground-truth boxes per image; ids: category ids of the classes"""
    Y = E.m(PI)
    imgs = [7, 3, 12][:len(nd)]
    per = [detections(E, n, p=f'i{k}', x=(0, 32), classes=cls_d) for k, n in enumerate(nd)]
    distinct(E, per)
    for rows in per:
        for r in rows:
            if fixw is None:
                E.assume(r[2] > r[0])
            else:
                r[2] = r[0] + fixw[0]
    gts, k = [], 0
    for i, n in enumerate(ng):
        for _ in range(n):
            b = gtbox(E, k)
            gts.append((i, E.choice(f'gc{k}', cls_g), b if fixw is None else (b[0], b[1], fixw[1], b[3])))
            k += 1
    ties(E, per, xyxy(gts))
    ann = {'images': [{'id': i, 'file_name': f'{i}.jpg'} for i in imgs], 'annotations': anns(gts, imgs, ids),
           'categories': [{'id': v, 'name': f'c{v}'} for v in (order or ids)] if listed else []}
    r = E.call(Y.compute_coco_metrics, dets_of(E, per, imgs), ann, nclass, list(thr))
    if not r.ok:
        E.fail(f'compute_coco_metrics raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
    want = [rematch(pairs(per), xyxy(gts), t, nclass) for t in thr]
    judge(E, r.val, want, thr)


def judge(E, m, want, thr):
    keys = [f'mAP@{t:.2f}' for t in thr]
    E.observe('AP', [round(float(m['ap_per_iou'][k]), 6) for k in keys if k in m['ap_per_iou']])
    E.check(list(m['ap_per_iou']) == keys, 'one average per IoU threshold')
    for k, w in zip(keys, want):
        E.check(near(m['ap_per_iou'][k], w), f'{k} is {float(m["ap_per_iou"][k]):.4f} instead of {w:.4f}')
    E.check(near(m['mAP@0.5'], want[keys.index('mAP@0.50')] if 'mAP@0.50' in keys else 0.0), 'mAP@0.5')
    E.check(near(m['mAP@0.5:0.95'], sum(want) / len(want)), 'mAP@0.5:0.95 is the mean over the thresholds')


def ties(E, per, gts):
    """two boxes of one class that overlap a detection equally are interchangeable: outside"""
    for i, rows in enumerate(per):
        gs = [g for g in gts if g[0] == i]
        for r in rows:
            for a in range(len(gs)):
                for b in range(a):
                    if gs[a][1] != gs[b][1]:
                        continue
                    E.assume(gs[a][2][0] != gs[b][2][0])
                    (p, u), (q, v) = iu(r[:4], gs[a][2]), iu(r[:4], gs[b][2])
                    E.assume(E.any(E.no(p * v == q * u), p == 0))


def h_default(E):
    """the ten thresholds of COCO by default"""
    Y = E.m(PI)
    thr = [0.5 + 0.05 * i for i in range(10)]
    cut = E.int('cut', 0, 20)
    for t in (50, 55, 60, 65, 70, 75, 80, 85, 90, 95):
        E.assume((20 - cut) * 100 != t * 20)
    s = E.int('s', 1, Q) / Q
    det = [{'image_id': 1, 'boxes': E.np.array([[cut, 0, 20, 8]], dtype=np.float64), 'scores': E.np.array([s], dtype=np.float64),
            'labels': E.np.array([4.], dtype=np.float64)}]
    E.assume(cut < 20)
    ann = {'images': [{'id': 1, 'file_name': 'a'}], 'annotations': [{'id': 1, 'image_id': 1, 'category_id': 4, 'bbox': [0, 0, 20, 8]}],
           'categories': [{'id': i, 'name': str(i)} for i in range(6)]}
    r = E.call(Y.compute_coco_metrics, det, ann)
    if not r.ok:
        E.fail(f'compute_coco_metrics raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
    judge(E, r.val, [1.0 if (20 - cut) * 100 >= round(t * 100) * 20 else 0.0 for t in thr], thr)


# ---- the drivers
LB = [(0, 0, 1.0), (8, 0, 0.5), (0, 4, 2.0), (2, 6, 0.25)]


class Pipeline:
    def __init__(self, E, Y, size, outs, lb, conf, iou):
        self.E, self.Y, self.seen, self.lb, self.outs = E, Y, [], lb, outs
        self.ev = object.__new__(Y.YOLOEvaluator)
        self.ev.onnx_path, self.ev.input_size, self.ev.conf_thres, self.ev.iou_thres = 'm.onnx', size, conf, iou
        self.ev.infer_single = self.infer
        self.load = Y.load_image

    def __enter__(self):
        self.Y.load_image = self.image
        return self.ev

    def __exit__(self, *a):
        self.Y.load_image = self.load

    def image(self, path, size):
        nm = os.path.basename(path)
        self.seen.append(nm)
        return nm, self.lb[nm]

    def infer(self, nm):
        return self.outs[nm]


def h_driver(E, how, names, on_disk, max_images, nd, gt_on, lbs, ids):
    """annotated images, some of them missing or beyond the limit; names in the order of the annotation file"""
    Y = E.m(PI)
    conf, iou, size = 0.25, 0.5, (64, 64)
    imgid = {nm: 40 + 7 * k for k, nm in enumerate(names)}
    outs, lb, rows = {}, {}, {}
    for k, nm in enumerate(names):
        rows[nm] = detections(E, nd[k], p=f'{nm[0]}', x=(8, 56), y=((8, 24),), classes=(0, 1) if nd[k] < 2 else (1,))
        for r in rows[nm]:
            r[2] = r[0] + 12
        outs[nm], lb[nm] = out_array(E, rows[nm]), LB[lbs[k]]
    todo = [n for n in (names if how != 'dir' else sorted(names)) if how != 'dir' or n in on_disk]
    if max_images > 0:
        todo = todo[:max_images]
    todo = [n for n in todo if n in on_disk]
    per, gts = [], []
    distinct(E, [rows[n] for n in todo])
    for k, (i, c) in enumerate(gt_on):
        pl, pt, sc = lb[names[i]]
        # an object whose picture in the network's input is the box (gx, 8)-(gx+gw, 24)
        gx, gw = E.int(f'gx{k}', 8, 40), 16
        gts.append((i, c, ((gx - pl) / sc, (8 - pt) / sc, gw / sc, 16 / sc), (gx, 8, gx + gw, 24)))
    want_d, want_g = [], []
    ties(E, [rows[n] for n in names], [(g[0], g[1], g[3]) for g in gts])
    ann = {'images': [{'id': imgid[n], 'file_name': n} for n in names],
           'annotations': [{'id': 9 + k, 'image_id': imgid[names[i]], 'category_id': ids[c], 'bbox': list(b)} for k, (i, c, b, _) in enumerate(gts)],
           'categories': [{'id': v, 'name': f'c{v}'} for v in ids]}
    P = Pipeline(E, Y, size, outs, lb, conf, iou)
    old = Y.load_coco_annotations
    with scratch(E) as d, P as ev:
        d = str(d)
        base = os.path.join(d, 'val2017')
        os.makedirs(base)
        for n in on_disk:
            open(os.path.join(base, n), 'w').close()
        open(os.path.join(base, 'notes.txt'), 'w').close()
        f = os.path.join(d, 'ann.json')
        open(f, 'w').close()
        Y.load_coco_annotations = lambda p: ann
        try:
            if how == 'coco':
                r = E.call(ev.evaluate_coco, f, max_images)
            elif how == 'dir':
                r = E.call(ev.evaluate_image_dir, base, f, max_images)
            else:
                r = E.call(Y.export_pr_curve, ev, f, os.path.join(d, 'pr.json'), max_images if max_images > 0 else 500, 2)
                pts = json.load(open(os.path.join(d, 'pr.json')))['pr_points'] if r.ok else None
        finally:
            Y.load_coco_annotations = old
    if not r.ok:
        E.fail(f'the evaluation raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
    E.check(P.seen == todo, f'the images evaluated: {P.seen} instead of {todo}')
    want_g = [(g[0], g[1], g[3]) for g in gts if names[g[0]] in todo]
    if how == 'pr':
        E.check([round(p['threshold'], 6) for p in pts] == [0.01, 0.99], 'confidence thresholds of the curve')
        for p, t in zip(pts, (0.01, 0.99)):
            dd = [(names.index(n), r_[4], r_[5], r_[:4]) for n in todo for r_ in rows[n] if r_[4] >= t]
            E.check(p['num_detections'] == len(dd), f'number of detections above {t}')
            E.check(near(p['mAP@0.5'], rematch(dd, want_g, 0.5, 2)), f'mAP@0.5 above {t}: {p["mAP@0.5"]:.4f}')
        return
    kept = {n: decode(rows[n], size, conf, iou, 300) for n in todo}
    dd = [(names.index(n), k[5], k[4], k[:4]) for n in todo for k in kept[n]]
    E.check(near(r.val['mAP@0.5'], rematch(dd, want_g, 0.5, 2)), f'mAP@0.5 is {float(r.val["mAP@0.5"]):.4f} instead of {rematch(dd, want_g, 0.5, 2):.4f}')
    if how == 'dir':
        E.check(r.val['num_images'] == len(todo) and len(r.val['detections']) == len(todo), 'number of images')
        for n, rec in zip(todo, r.val['detections']):
            E.check(rec['file_name'] == n and len(rec['boxes']) == len(kept[n]) == len(rec['scores']) == len(rec['labels']), 'detections of the image')
            pl, pt, sc = lb[n]
            for k in kept[n]:
                b = [(k[0] - pl) / sc, (k[1] - pt) / sc, (k[2] - pl) / sc, (k[3] - pt) / sc]
                E.check(E.any(*[row_is(E, [*[rec['boxes'][j, q] for q in range(4)], rec['scores'][j], rec['labels'][j]], [*b, k[5], k[4]]) for j in range(len(kept[n]))]),
                        'a detection reported in the coordinates of the original image')


def obligations(tier):
    th = tier == 'thorough'
    B = dict(form='batch', max_det=None, conf=0.25, iou=0.5, classes=(0, 1), ymany=False)
    obs = [Ob('post-2', h_post, dict(B, n=2)), Ob('post-2-flat', h_post, dict(B, n=2, form='flat', iou=0.25)), Ob('post-1-y', h_post, dict(B, n=1, ymany=True)),
           Ob('post-2-ys', h_post, dict(B, n=2, ys=((0, 8), (4, 6)), classes=(3,), inside=True)), Ob('post-max1', h_post, dict(B, n=2, max_det=1, iou=0.75)),
           Ob('post-0', h_post, dict(B, n=0)), Ob('post-wide', h_post, dict(B, n=1, cols=7)), Ob('post-3', h_post, dict(B, n=3, classes=(2,), iou=0.5, inside=True, fixw=6), weight=3)]
    obs += [Ob(f'narrow-{c}', h_narrow, dict(cols=c)) for c in (4, 5)]
    M = dict(ids=[0, 1], thr=[0.5], nclass=2, cls_d=(0, 1), cls_g=(0, 1))
    obs += [Ob('ap-1-1', h_metrics, dict(M, nd=[1], ng=[1], thr=[0.5, 0.75])), Ob('ap-2-1', h_metrics, dict(M, nd=[2], ng=[1], cls_g=(0,))),
            Ob('ap-1-2', h_metrics, dict(M, nd=[1], ng=[2], cls_d=(1,))), Ob('ap-2-2', h_metrics, dict(M, nd=[2], ng=[2], cls_d=(1,), cls_g=(1,), fixw=(6, 8)), weight=3),
            Ob('ap-images', h_metrics, dict(M, nd=[1, 1], ng=[1, 1], cls_d=(0,), cls_g=(0,), fixw=(9, 8)), weight=2), Ob('ap-coco-ids', h_metrics, dict(M, nd=[1], ng=[1], ids=[1, 3])),
            Ob('ap-unsorted', h_metrics, dict(M, nd=[1], ng=[1], ids=[5, 90], order=[90, 5])), Ob('ap-unlisted', h_metrics, dict(M, nd=[1], ng=[1], listed=False)),
            Ob('ap-nothing', h_metrics, dict(M, nd=[0], ng=[0])), Ob('ap-empty', h_metrics, dict(M, nd=[0], ng=[1])), Ob('ap-nogt', h_metrics, dict(M, nd=[1], ng=[0])),
            Ob('ap-strict', h_metrics, dict(M, nd=[1], ng=[1], thr=[0.75], cls_d=(0,), cls_g=(0,))), Ob('default', h_default, {})]
    D = dict(names=['b.jpg', 'a.png'], on_disk=['b.jpg', 'a.png'], max_images=-1, nd=[1, 1], gt_on=[(0, 1), (1, 0)], lbs=[1, 2], ids=[1, 18])
    for how in ('coco', 'dir', 'pr'):
        obs += [Ob(f'{how}-all', h_driver, dict(D, how=how), weight=2), Ob(f'{how}-limit', h_driver, dict(D, how=how, max_images=1), weight=2)]
    for how in ('coco', 'dir'):
        obs += [Ob(f'{how}-missing', h_driver, dict(D, how=how, on_disk=['a.png']), weight=2)]
    obs += [Ob('dir-two', h_driver, dict(D, how='dir', nd=[2, 0], lbs=[3, 0], gt_on=[(0, 1)]), weight=2)]
    return obs


BOUNDS = {
    'values': 'coordinates -8..40 and confidences k/64 symbolic, classes chosen among two, image 9 or 8 high and 16..32 wide',
    'post-': 'up to 2 detections with every coordinate free in x (1 with y free), 3 detections 6 wide; NMS thresholds 0.25, 0.5, 0.75; 0, 4, 5, 6 and 7 columns; max_det 1',
    'ap-': 'up to 2 detections and 2 objects in up to 2 images (2 by 2 with fixed widths), thresholds 0.5 and 0.75, category ids 0..1, 1/3, 5/90 in either order and no list of categories; the ten default thresholds for one detection',
    'drivers': 'two images, up to 2 detections and 2 objects, all present, one missing, limited to one; four letterbox placements',
}
OUTSIDE = 'equal confidences and equal overlaps; crowd and ignored annotations; reading, resizing and drawing images; confidences that are not multiples of 1/64; annotations of categories that are not listed'
ASSUMPTIONS = ['load_image, load_coco_annotations and infer_single of the evaluator are replaced by stand-ins that return the inputs of the harness']
