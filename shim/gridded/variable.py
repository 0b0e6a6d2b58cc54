class Variable(object):
    _default_component_types = {'time': None, 'grid': None, 'depth': None}

    def __init__(self, name=None, units=None, time=None, data=None, grid=None,
                 depth=None, data_file=None, grid_file=None, dataset=None,
                 varname=None, fill_value=0, attributes=None, **kwargs):
        for k in ('surface_boundary_condition', 'bottom_boundary_condition'):
            kwargs.pop(k, None)
        self._grid = self._time = self._data = self._depth = None
        self._units = units
        self.name = name
        self.grid, self.depth, self.time, self.data = grid, depth, time, data
        self.data_file, self.grid_file = data_file, grid_file
        self.varname = varname
        self.fill_value = fill_value
        self.attributes = attributes or {}

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF")

    def at(self, *args, **kwargs):
        raise NotImplementedError("gridded stand-in")

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, u):
        self._units = u

    @property
    def time(self):
        return self._time

    @time.setter
    def time(self, t):
        self._time = t


class VectorVariable(object):
    _default_component_types = {'time': None, 'grid': None, 'depth': None,
                                'variable': None}
    comp_order = []

    def __init__(self, name=None, units=None, time=None, variables=None, grid=None,
                 depth=None, grid_file=None, data_file=None, dataset=None,
                 varnames=None, **kwargs):
        for k in ('surface_boundary_condition', 'bottom_boundary_condition'):
            kwargs.pop(k, None)
        self.name = name
        self._units = units
        self._time, self._grid, self._depth = time, grid, depth
        self.grid_file, self.data_file = grid_file, data_file
        self._variables = list(variables or [])

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF")

    @property
    def variables(self):
        return self._variables

    @property
    def time(self):
        return self._time

    @property
    def units(self):
        return self._units

    def at(self, *args, **kwargs):
        raise NotImplementedError("gridded stand-in")
