"""Remembers conversions of units between systems (a pure function of the unit
that astropy computes anew, in 30 ms, for every cosmology made)."""


def install():
    try:
        from astropy.units import CompositeUnit
        orig = CompositeUnit.to_system
    except (ImportError, AttributeError):
        return
    known = {}

    def to_system(self, system):
        try:
            key = (self.scale, tuple(self.bases), tuple(self.powers), system.__name__)
            hash(key)
        except (AttributeError, TypeError):
            return orig(self, system)
        if key not in known:
            known[key] = orig(self, system)
        return list(known[key])
    CompositeUnit.to_system = to_system
