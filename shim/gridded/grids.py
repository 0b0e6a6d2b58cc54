class GridBase(object):
    def __init__(self, *args, **kwargs):
        self.grid_topology = kwargs.pop('grid_topology', None)
        self.filename = kwargs.pop('filename', None)
        kwargs.pop('use_masked_boundary', None)
        super().__init__()

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF grids")


class Grid_U(GridBase):
    pass


class Grid_S(GridBase):
    pass


class Grid_R(GridBase):
    pass


class Grid(object):
    @staticmethod
    def from_netCDF(*args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF grids")

    @staticmethod
    def _get_grid_type(*args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF grids")
