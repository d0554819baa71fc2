"""Builds tiny AeoLiS models from real configuration files in the current directory."""
import os
import numpy as np


def fmt(v):
    if v is None:
        return 'None'
    if isinstance(v, (bool, np.bool_)):
        return 'T' if v else 'F'
    if isinstance(v, (int, np.integer)):
        return '%d' % v
    if isinstance(v, (float, np.floating)):
        s = np.format_float_positional(float(v), trim='0')
        return s
    if isinstance(v, (list, tuple)):
        return ' '.join(fmt(x) for x in v)
    return str(v)


def write(cfg, name='aeolis.txt', d='.', files=None):
    """Write arrays of cfg as ASCII files and the rest as key = value lines."""
    lines = []
    for k, v in cfg.items():
        if isinstance(v, np.ndarray):
            fn = '%s_%s.txt' % (os.path.splitext(name)[0], k)
            np.savetxt(os.path.join(d, fn), v, fmt='%.17g' if v.dtype.kind != 'c' else '%.12g')
            lines.append('%s = %s' % (k, fn))
        else:
            lines.append('%s = %s' % (k, fmt(v)))
    with open(os.path.join(d, name), 'w') as fp:
        fp.write('\n'.join(lines) + '\n')
    return os.path.join(d, name)


def grid1d(nx=5, dx=1.):
    return np.arange(nx) * dx


def grid2d(nx=4, ny=3, dx=1., dy=1., alpha=0., x0=0., y0=0.):
    """Mesh of nx by ny points, rotated alpha degrees anticlockwise."""
    x, y = np.meshgrid(np.arange(nx) * dx, np.arange(ny) * dy)
    a = np.deg2rad(alpha)
    return x0 + x * np.cos(a) - y * np.sin(a), y0 + x * np.sin(a) + y * np.cos(a)


def base(nx=5, ny=0, dx=1., dy=1., alpha=0., u=10., udir=270., zb=None, tend=1e6, **kw):
    cfg = {}
    if ny == 0:
        cfg['xgrid_file'] = grid1d(nx, dx)
        z = np.zeros(nx)
    else:
        x, y = grid2d(nx, ny, dx, dy, alpha)
        cfg['xgrid_file'] = x; cfg['ygrid_file'] = y
        z = np.zeros((ny, nx))
    cfg['bed_file'] = z if zb is None else np.asarray(zb, dtype=float)
    cfg['wind_file'] = np.array([[0., u, udir], [tend, u, udir]])
    cfg['nlayers'] = 2
    cfg['output_vars'] = 'zb'
    cfg.update(kw)
    return {k: v for k, v in cfg.items() if not (isinstance(v, str) and v == 'DROP')}


def model(cfg, name='aeolis.txt', runner=False, init=True):
    import aeolis.model as M
    f = write(cfg, name)
    m = (M.AeoLiSRunner if runner else M.AeoLiS)(f)
    if init:
        m.initialize()
    return m


def warm(**kw):
    """Compile the jitted kernels once, before the workers fork."""
    m = model(base(grain_size=[0.0003, 0.0004], grain_dist=[0.5, 0.5]))
    m.update()
    m = model(base(nx=4, ny=3, zb=np.zeros((3, 4)), process_avalanche=True,
                   grain_size=[0.0003, 0.0004], grain_dist=[0.5, 0.5], **kw))
    m.update()
