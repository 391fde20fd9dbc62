def ALL():
    from . import flux, phys, rk, step, run, cfg, out, whole
    d = {}
    for m in (flux, phys, rk, step, run, cfg, out, whole):
        d.update(m.CHECKS)
    return d
