from datetime import datetime, timedelta
import numpy as np


class OutOfTimeRangeError(ValueError):
    pass


class Time(object):
    _const_time = None

    def __init__(self, data=(datetime(2000, 1, 1),), filename=None, varname=None,
                 tz_offset=None, tz_offset_name=None, new_tz_offset=None, origin=None,
                 displacement=timedelta(seconds=0), *args, **kwargs):
        self._tz_offset = tz_offset
        self.tz_offset_name = tz_offset_name
        self.filename = filename
        self.varname = varname
        self.origin = origin
        if isinstance(data, Time):
            data = data.data
        self.data = data
        if origin is not None:
            diff = self._data[0] - origin
            self._data = self._data - diff
        if displacement:
            self._data = self._data + displacement
        super().__init__(*args, **kwargs)

    @property
    def tz_offset(self):
        return self._tz_offset

    @tz_offset.setter
    def tz_offset(self, off):
        if self._tz_offset is not None and off is not None:
            self._data = self._data + timedelta(hours=off - self._tz_offset)
        self._tz_offset = off

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, d):
        d = [d] if isinstance(d, datetime) else list(d)
        out = np.empty(len(d), dtype=object)
        for i, v in enumerate(d):
            out[i] = v.astype('M8[us]').item() if isinstance(v, np.datetime64) else v
        if not self._timeseries_is_ascending(out):
            raise ValueError("Time sequence is not ascending")
        if self._has_duplicates(out):
            raise ValueError("Time sequence has duplicate entries")
        self._data = out

    @classmethod
    def from_netCDF(cls, *args, **kwargs):
        raise NotImplementedError("gridded stand-in: no netCDF")

    @classmethod
    def constant_time(cls):
        if cls._const_time is None:
            cls._const_time = cls(np.array([datetime(1900, 1, 1)], dtype=object))
        return cls._const_time

    @staticmethod
    def _timeseries_is_ascending(ts):
        return all(ts[i] <= ts[i + 1] for i in range(len(ts) - 1))

    @staticmethod
    def _has_duplicates(ts):
        return any(ts[i] == ts[i + 1] for i in range(len(ts) - 1))

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def __eq__(self, other):
        return (isinstance(other, Time) and len(self) == len(other)
                and all(a == b for a, b in zip(self._data, other._data)))

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__

    @property
    def info(self):
        return repr(self._data)

    @property
    def min_time(self):
        return self._data[0]

    @property
    def max_time(self):
        return self._data[-1]

    def get_time_array(self):
        return self._data[:]

    def time_in_bounds(self, time):
        return not (time < self.min_time or time > self.max_time)

    def valid_time(self, time):
        if time < self.min_time or time > self.max_time:
            raise OutOfTimeRangeError(
                'time specified ({0}) is not within the bounds of the time '
                '({1} to {2})'.format(time, self.min_time, self.max_time))

    def index_of(self, time, extrapolate=False):
        if not (extrapolate or len(self._data) == 1):
            self.valid_time(time)
        return int(np.searchsorted(self._data, time))

    def interp_alpha(self, time, extrapolate=False):
        if not len(self._data) == 1 and not extrapolate:
            self.valid_time(time)
        i0 = self.index_of(time, extrapolate)
        if i0 > len(self._data) - 1:
            return 1.0
        if i0 == 0:
            return 0.0
        t0, t1 = self._data[i0 - 1], self._data[i0]
        return (time - t0).total_seconds() / (t1 - t0).total_seconds()

    def is_constant(self):
        return len(self._data) == 1
