class DepthBase(object):
    _default_component_types = {'time': None, 'grid': None, 'variable': None}

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF")


class L_Depth(DepthBase):
    pass


class S_Depth(DepthBase):
    _default_component_types = {'time': None, 'grid': None, 'variable': None,
                                'bathymetry': None, 'zeta': None}


class ROMS_Depth(S_Depth):
    pass


class FVCOM_Depth(S_Depth):
    pass


class Depth(object):
    ld_types = []
    sd_types = []
    surf_types = []
