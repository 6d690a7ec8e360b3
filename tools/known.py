KNOWN.append(("C18", "not-toroidal", "make_maps with a field other than Slab whose coordinate x is not the major radius (Rfunc None or constant, e.g. StraightStellarator, CurvedSlab): J and Ly are computed as if y were a toroidal angle and x the major radius; not repaired because the stable test test_volume_slab relies on it"))
