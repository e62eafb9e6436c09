"""Compile the numba kernels once, before workers are forked."""
def warm():
    import numpy as np
    from sectionproperties.pre import Material, CompoundGeometry
    from sectionproperties.analysis import Section
    from sectionproperties.pre.library import rectangular_section
    m = Material("a", 2.0, 0.2, 3.0, 1.0, "w"); m2 = Material("b", 1.0, 0.2, 3.0, 1.0, "w")
    a = rectangular_section(d=3, b=2, material=m)
    b = rectangular_section(d=1, b=2, material=m2).shift_section(y_offset=3)
    for g in (rectangular_section(d=3, b=2), CompoundGeometry([a, b])):
        g.create_mesh([0])
        s = Section(g)
        s.calculate_frame_properties()
        s = Section(g)
        s.calculate_geometric_properties(); s.calculate_warping_properties(); s.calculate_plastic_properties()
        s.calculate_stress(n=1, vx=1, vy=1, mxx=1, myy=1, m11=1, m22=1, mzz=1).get_stress()
        s.get_stress_at_points([(0.5, 0.5)], n=1, vx=1, mzz=1)
