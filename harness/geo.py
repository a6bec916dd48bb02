"""Geometry on the sphere as arbitrary functions of the positions."""
import qc
import spherical_geometry as sph
import track_check as tc


def stub(c, times=True, far=20000.0):
    """distance, course, time difference, and the projected points become uninterpreted functions"""
    def dist(a, b, x, y):
        return c.uf("distance", a, b, x, y, lo=0.0, hi=far)

    def course(a, b, x, y):
        return c.uf("course", a, b, x, y, lo=0.0, hi=360.0)

    def inter(a, b, x, y, f):
        return (c.uf("mid_lat", a, b, x, y, f, lo=-90.0, hi=90.0), c.uf("mid_lon", a, b, x, y, f, lo=-180.0, hi=180.0))

    def ahead(a, b, x, y):
        return (c.uf("ahead_lat", a, b, x, y, lo=-90.0, hi=90.0), c.uf("ahead_lon", a, b, x, y, lo=-180.0, hi=180.0))

    def step(a, b, sp, di, t):
        return (c.uf("step_lat", a, b, sp, di, t, lo=-90.0, hi=90.0), c.uf("step_lon", a, b, sp, di, t, lo=-180.0, hi=180.0))

    def hours(y1, m1, d1, h1, y2, m2, d2, h2):
        if h1 is None or h2 is None:
            return None
        return c.uf("hours", y1, m1, d1, h1, y2, m2, d2, h2, lo=-1000.0, hi=1000.0)

    c.patch(sph, "sphere_distance", dist)
    c.patch(sph, "course_between_points", course)
    c.patch(sph, "intermediate_point", inter)
    c.patch(sph, "lat_lon_from_course_and_distance", ahead)
    c.patch(tc, "increment_position", step)
    if times:
        c.patch(qc, "time_difference", hours)
    g = G()
    g.dist, g.course, g.inter, g.ahead, g.step, g.hours = dist, course, inter, ahead, step, hours
    return g


class G:
    pass
