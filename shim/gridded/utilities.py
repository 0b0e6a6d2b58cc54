import numpy as np


def get_dataset(ncfile, dataset=None):
    import netCDF4
    if isinstance(ncfile, netCDF4.Dataset):
        return ncfile
    if isinstance(ncfile, (list, tuple)) and len(ncfile) == 1:
        ncfile = ncfile[0]
    return netCDF4.Dataset(ncfile)


def _reorganize_spatial_data(points):
    if points is None:
        return None
    points = np.array(points)
    if points.ndim == 1:
        return points.reshape(1, -1)
    if points.shape[1] > 3:
        return points.T
    return points


def _align_results_to_spatial_data(result, points):
    if points is None:
        return result
    points = np.array(points)
    if points.ndim == 1:
        return result
    if points.shape[1] > 3:
        return result.T
    return result


def gen_celltree_mask_from_center_mask(*args, **kwargs):
    raise NotImplementedError("gridded stand-in")


def convert_mask_to_numpy_mask(m):
    return np.asarray(m).astype(bool)
