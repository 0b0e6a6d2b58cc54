#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the one list of properties below"""
import json, pathlib, sys
VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "harness"))
from registry import PROPS

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, level_note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, na=na, level_note=level_note))


G = "py_gnome/gnome/"

prop("C01", "Element arrays stay consistent and elements keep their identity",
     "In every container of elements all per-element arrays have the same length at all times, every element has an id that is unique and never reused within a run, and belongs to an existing spill. "
     "A step only appends newly released elements at the end and drops elements that were marked for removal or left the map; every surviving element keeps its id, spill, mass and relative order.",
     ["inputs", "configurations", "histories"],
     "any set of spills, movers, weatherers and maps, certain or uncertain, forwards or backwards, any history of steps, rewinds and setting changes",
     "The tests step a few fixed models and look at array lengths; the interplay of releasing twice per step, removing rows and re-running is only reached by histories.",
     [G + "spill_container.py", G + "model.py", G + "array_types.py", G + "spills/spill.py"],
     [("append and removal of rows across all arrays", "SpillContainer._append_data_arrays, remove_elements"),
      ("ids handed out per run", "IDArrayType, SpillContainer.prepare_for_model_run")],
     observe=["model.step()", "model.spills.items()[i][array]"])
prop("C02", "Every release puts the right number of elements, at the right time and place",
     "At every model time the number of elements a spill has released is the planned number for that time: none before its release time in the direction of the run, all after its end, proportional in between, with a fixed number per time step when that was asked for. "
     "The released elements start in the water with age zero, lie along the line, at the points, on the grid or inside the polygon that was specified, at the place the source had reached, and share the spilled mass equally.",
     ["inputs", "configurations", "histories"],
     "any release kind, release window (aligned or not with time steps), element counts, amounts, time steps and start times, forwards and backwards, repeated runs",
     "Tests sample aligned releases with round numbers; off-grid windows, odd counts and later runs of the same spill are an unbounded input space.",
     [G + "spills/release.py", G + "spills/spill.py", G + "spill_container.py", G + "model.py"],
     [("release time series", "Release.generate_release_timeseries, num_elements_after_time"),
      ("placing new elements", "initialize_elements of each release class"),
      ("mass per element", "Release.prepare_for_model_run")],
     observe=["model.step()", "positions, mass, init_mass, age, status_codes arrays"])
prop("C03", "A run visits every time step once, in order; changes rewind it cleanly",
     "Running a model visits step 0, 1, ... up to its number of steps exactly once each, at start time plus step times time step (minus for backward runs), then stops with the end-of-run signal. "
     "In each step every mover, weatherer and environment object is prepared, applied for exactly that time span and told when the step is done, elements age by the time step, and an unusable setup is refused before anything happens. "
     "Rewinding, or changing the start time, the time step, the map, the movers or a shorter duration, takes the model back to before its first step with no elements; a longer duration only extends the run.",
     ["histories", "configurations"],
     "any sequence of step / full run / iteration / rewind / setting changes, on any configuration",
     "Tests run fixed scripts; the state machine's guarantee is about all call histories and all start/duration/time-step combinations.",
     [G + "model.py"],
     [("step state machine", "Model.step, setup_model_run, setup_time_step, move_elements, weather_elements, step_is_done, rewind"),
      ("setting changes", "Model property setters and collection callbacks")],
     observe=["current_time_step, model_time, num_time_steps", "calls received by movers, weatherers, environment"])
prop("C04", "Rewinding and running again gives identical results",
     "Running the same setup again, after rewinding at any point or after changing settings and changing them back, gives bit-for-bit the same elements at every step, including random movement, windages and element ids.",
     ["histories", "configurations"],
     "any configuration (random movers, polygon releases, uncertainty) and any history of interrupted runs, setting changes and rewinds between the two runs",
     "Only a handful of fixed models are run twice in the tests; state that leaks from one run into the next shows up only for particular earlier histories.",
     [G + "model.py", G + "spill_container.py", G + "spills/release.py", G + "utilities/rand.py", G + "movers/"],
     [("state reset", "Model.rewind, SpillContainer.rewind, Spill.rewind, Release.rewind"), ("seeding", "utilities.rand.seed")],
     observe=["all data arrays of both containers after every step"])
prop("C05", "Uncertain run mirrors the certain one without disturbing it",
     "With uncertainty on, the uncertain elements come from the same spills, in the same numbers and at the same times and places as the certain ones; without it there is only the certain set. "
     "Adding, removing, replacing or clearing spills acts on both sets alike, only the certain elements weather, and turning uncertainty on or off does not change what happens to the certain elements where nothing is random.",
     ["histories", "configurations"],
     "any configuration and history of spill edits, switching uncertainty on and off, and runs",
     "Tests toggle uncertainty once on a fixed model; mirroring must hold after every edit history.",
     [G + "spill_container.py", G + "model.py"],
     [("pairing", "SpillContainerPair add/remove/replace/clear, uncertain setter"), ("twin releases", "Spill.copy / uncertain copy")],
     observe=["model.spills.items()", "elements of both containers"])
prop("C06", "Weathering and cleanup conserve mass",
     "At every step the oil released so far equals the mass still carried by elements plus what the mass balance books as evaporated, dispersed, sedimented, skimmed, burned, chemically dispersed, observed beached and gone off the map. "
     "An element's mass is the sum of its components, which are never negative and never grow; booked losses never shrink, and only processes that are switched on and active in the step add to them. "
     "The reported floating and non-weathering masses are those of the elements concerned, and the water taken up stays within the oil's bounds and is none without emulsification. Uncertain elements keep their mass, and a backward run of weathering oil is refused.",
     ["inputs", "configurations", "histories"],
     "any oil, spill, combination of evaporation, natural dispersion, emulsification, skimming, burning, chemical dispersion and observed beaching, active ranges, sub-steps, beaching and leaving the map, repeated runs",
     "Tests check single weatherers on a few steps; the balance is a sum over every process, every element and the whole history.",
     [G + "weatherers/", G + "model.py", G + "spill_container.py", G + "maps/map.py"],
     [("taking mass from components", "each weatherer's weather_elements"), ("bookkeeping", "WeatheringData, sc.mass_balance"),
      ("leaving the map", "Model.step_is_done")],
     observe=["mass, mass_components, frac_water arrays", "mass_balance after each step"])
prop("C07", "Land is a barrier: no element floats on, into or across land",
     "Whatever movers do, an element that starts a step in the water and whose straight path over the land-water raster meets a land cell, or squeezes diagonally between two land cells, is stopped at the first such cell; "
     "one whose path meets none ends exactly where the movers put it. This does not depend on how long the path is, how large the raster is, or whether the path starts, ends or passes off the raster (where there is only water). "
     "A floating element is never on a land cell, and the queries about single points (on land, in water) agree with the raster, which shows the polygons the map was made from.",
     ["inputs", "configurations"],
     "any raster, projection, start and end position, step length, certain or uncertain elements; maps made from polygon files with lakes",
     "Tests try a handful of lines on hand-drawn rasters smaller than the coarse search layer; the guarantee is about all pairs of cells on all rasters.",
     [G + "cy_gnome/cy_land_check.pyx", G + "maps/map.py", G + "utilities/projections.py"],
     [("walking the raster line", "c_find_first_pixel, check_land_layers"), ("coarser rasters", "RasterMap.build_coarser_rasters"),
      ("drawing polygons", "MapFromBNA.build_raster")],
     observe=["model.step()", "find_first_pixel", "map.on_land, on_land_points, in_water"])
prop("C08", "Beaching, refloating and leaving the map follow the map's rules",
     "An element that hits land is beached at that land cell with the water cell before it as its last water position; it stays put until it refloats to exactly that position: never for a negative half-life, at once for zero, otherwise with probability 1 - 2^(-step/half-life). "
     "Elements released on land are beached in place, elements above the surface are put back to it, elements outside the map bounds are removed for good, and the reported beached and off-map masses are those of the elements concerned. "
     "On-map and allowable-spill queries agree with bounds, land and spillable areas.",
     ["inputs", "configurations", "histories"],
     "any map, half-life, sequence of pushes onto and off land and across the bounds, certain and uncertain elements",
     "Tests beach one or two elements once; the bookkeeping is over histories of beaching, refloating and leaving.",
     [G + "maps/map.py", G + "model.py"],
     [("beaching", "RasterMap.beach_elements"), ("refloating", "RasterMap.refloat_elements"), ("off map", "GnomeMap._set_off_map_status, Model.step_is_done"),
      ("release on land", "Model.release_elements")],
     observe=["positions, status_codes, last_water_positions, mass_balance after each step"])
prop("C09", "Outputters write exactly the steps their settings ask for",
     "An outputter writes each step that its settings call for and no other: the first and last step if asked, every step or the first step at or after each output interval in between, from its output start time on, or one single output. "
     "Writing the cached run afterwards follows the same schedule, every step is written at most once and nothing is written after the end.",
     ["configurations", "histories"],
     "any output interval (smaller, larger, not a multiple of the time step), start time, zero/last/single flags, direction of the run, histories with rewinds and longer durations",
     "Tests use one or two intervals that divide the time step; the schedule is a function over all combinations of flags and times.",
     [G + "outputters/outputter.py", G + "model.py"],
     [("deciding a step", "Outputter.prepare_for_model_step, _write_step, write_output, write_output_post_run")],
     observe=["calls to write_output and what they write"])
prop("C10", "What outputters read back from the cache is what was computed",
     "For every step of the current run the element cache returns exactly the arrays and time stamps that the model had after that step, for both the certain and uncertain elements, in any order and any number of times, whatever callers do with the copies they get; it returns nothing for steps that were not computed in this run.",
     ["histories", "configurations"],
     "any configuration and history of steps, rewinds and re-runs; any order of reads",
     "Tests read back a few steps of fixed data; aliasing with live arrays and stale steps need particular histories.",
     [G + "utilities/cache.py", G + "model.py", G + "outputters/outputter.py"],
     [("saving and loading steps", "ElementCache.save_timestep, load_timestep, rewind")],
     observe=["cache.load_timestep(k)", "outputter callbacks"])
prop("C14", "Only active movers move elements, and their displacements add up",
     "In every step each element is displaced by the sum of what the active movers give it; a mover that is off, or whose active range does not contain the middle of the step, contributes nothing.",
     ["inputs", "configurations"],
     "any number of movers, on/off switches, active ranges (open, inside a step, crossing steps), time steps and directions",
     "Tests use one mover with ranges aligned to steps; the rule is over all alignments and combinations.",
     [G + "movers/movers.py", G + "gnomeobject.py", G + "model.py", G + "movers/"],
     [("activity", "Process.prepare_for_model_step"), ("summing", "Model.move_elements")],
     observe=["positions before and after a step"])
prop("C11", "Saving and loading a setup gives back the same setup",
     "Saving a model, or any part of it, and loading it again gives an object graph with the same kinds of objects, the same settings and data files, and the same sharing: what was one object used in two places is one object again, and what were two objects are two. "
     "That holds whatever the objects are named (equal names, odd characters), however they are saved (to a new or existing archive, an open zip file, a folder, in memory) and however they are loaded (archive, unpacked folder, the root's json file, zipped again inside a folder), and the loaded model runs with the same results. "
     "The archive holds each object once under its own plain file name, refers only to files in it, and saving changes nothing in what is saved.",
     ["inputs", "configurations", "histories"],
     "any graph of model, map, wind, water, waves, movers, spills, releases, substances, weatherers and outputters, after any history of edits, runs and updates; any names and any way to save and load",
     "The tests save one object of a kind with default names; lost settings, name clashes and broken sharing depend on the combination of objects, values and names.",
     [G + "persist/save_load.py", G + "gnomeobject.py", G + "persist/base_schema.py", G + "model.py", G + "spills/", G + "movers/", G + "weatherers/", G + "outputters/", G + "environment/"],
     [("saving", "ObjType._save_obj, GnomeId.save"), ("loading", "GnomeId.load, Refs.load"), ("what is saved", "the schema of each class")],
     observe=["obj.save(...)", "cls.load(...)", "the files of the archive", "settings of the loaded objects", "runs of the loaded model"])
prop("C12", "A JSON round trip keeps everything; an update changes exactly what it names",
     "Serializing an object graph to JSON and deserializing it gives the same kinds, settings and sharing, and a model that runs with the same results. "
     "Updating from a dict changes the settings it names, of the object it is applied to or that it names by id inside it, to the given values, in any combination and order, in place: every other setting and reference stays as it was and the objects keep their identity; unknown settings are ignored. "
     "A reference is replaced by the object with the given id where there is one, by a new object where there is none, and cleared by null; a collection becomes the given list in the given order; updating an object with its own serialization changes nothing.",
     ["inputs", "configurations", "histories"],
     "any object graph, any subset of settings in any order, references to existing, new or no objects, reordered, extended and reduced collections, after any history of edits and updates",
     "Tests update one or two settings of fresh objects; what else changes, and what sharing does, depends on the rest of the graph and on earlier updates.",
     [G + "persist/base_schema.py", G + "gnomeobject.py", G + "model.py", G + "utilities/orderedcollection.py"],
     [("serialization", "ObjType._ser, GnomeId.serialize"), ("deserialization", "ObjType._deser, GnomeId.deserialize"), ("updates", "GnomeId.update_from_dict, CollectionItemsList updates")],
     observe=["obj.serialize()", "cls.deserialize(js)", "obj.update_from_dict(dict, refs)"])
prop("C15", "Ordered collections behave as an ordered list of distinct named objects",
     "The collections of spills, movers, weatherers, environment objects and outputters behave, under any sequence of adding, removing, replacing, indexing, slicing, membership tests and clearing, by position or by id, as an ordered list of distinct objects of the accepted type. "
     "Removed or replaced objects are no longer found, order is insertion order, and the registered callbacks fire exactly once for each change and for no refused change.",
     ["histories"],
     "any sequence of collection operations",
     "Tests apply a few operations to fresh collections; wrong results after removals depend on the history of holes and re-insertions.",
     [G + "utilities/orderedcollection.py"],
     [("element list and index", "OrderedCollection._elems, _d_index"), ("callbacks", "OrderedCollection.fire_event, register_callback")],
     observe=["public methods of the collection"])
prop("C18", "Each element weathers according to where it is and how it is treated",
     "After every step an element's fate follows its place: beached or of a substance that does not weather, it does not weather; floating it weathers at the surface; below the surface it is subsurface. Newly released elements count as floating or subsurface by the depth they are released at. "
     "Elements marked for skimming, burning or chemical dispersion keep that mark while they stay in the water; marks come only from cleanup that is switched on and has started, and uncertain elements get none. "
     "An element loses mass only to processes that its fate allows: none when it does not weather or is subsurface, evaporation, natural dispersion and observed beaching at the surface, burning and chemical dispersion only when marked for it.",
     ["inputs", "configurations", "histories"],
     "any sequence of moves, beachings, refloats, dives and cleanup windows, certain and uncertain elements",
     "Tests set fates by hand; which fate an element has after a history of moves and markings is only reached by running models.",
     [G + "weatherers/", G + "model.py", G + "spill_container.py", G + "spills/substance.py"],
     [("fate after moving", "Model.move_elements, SpillContainer / substance fate setting"), ("marking", "Skimmer, Burn, ChemicalDispersion prepare_for_model_step"),
      ("selecting by fate", "FateDataView")],
     observe=["fate_status, status_codes, mass arrays after each step"])
prop("C19", "Cleanup removes what was planned for the time it works",
     "In each step a skimmer, burn or chemical dispersion removes the share of its planned amount that falls into the part of the step within its active range, however the step is divided into sub-steps, but never more than the marked oil at hand nor, in total, more than planned; "
     "enough oil is marked for it where there is enough, and burning and chemical dispersion take the same fraction from each marked element. "
     "Emulsified oil never makes it remove more, and skimming then removes the oil part of what it recovers. Observed beaching removes, in each step, what its series gives for that time, as far as there is oil.",
     ["inputs", "configurations", "histories"],
     "any amounts, efficiencies, active ranges (within a step, across steps, unaligned), time steps and sub-steps, repeated runs",
     "Tests use windows aligned to steps without sub-steps; the share is over all alignments.",
     [G + "weatherers/cleanup.py", G + "weatherers/manual_beaching.py", G + "weatherers/core.py"],
     [("time worked", "Weatherer / CleanUpBase prepare_for_model_step, get_substep_time"), ("amounts", "weather_elements of Skimmer, Burn, ChemicalDispersion, Beaching")],
     observe=["skimmed, burned, chem_dispersed, observed_beached in mass_balance, element masses"])

prop("C16", "Times convert exactly both ways, in any zone, and are totally ordered",
     "Dates without a zone convert to seconds and back without loss in every local time zone and on every day, those on which summer time begins or ends included: the seconds between two dates are the civil time between them, and the native code has the same times. "
     "Sequences and arrays convert element by element as single dates do, and no argument is changed. Rounding gives the nearest multiple, halves upwards. "
     "Fixed offsets keep their minutes as a time difference and as ISO text; text parses to the date it states. "
     "Infinite times and dates form one total order from either side of each comparison, in sorting and in minimum and maximum; InfDateTime accepts exactly the dates within its range.",
     ["inputs", "configurations"],
     "any date of 1970-2037 in any zone with a fixed standard offset, with or without summer time; any mixture of finite and infinite times; offsets of whole minutes",
     "Tests run in one time zone on a few dates; errors show only around the switches of particular zones or in particular mixtures.",
     [G + "utilities/time_utils.py", G + "utilities/inf_datetime.py", G + "cy_gnome/cy_helpers.pyx"],
     [("conversion", "date_to_sec, sec_to_date, sec_to_datetime, CyDateTime"), ("offsets, rounding, parsing", "TZOffset, round_time, asdatetime"),
      ("infinite times", "InfTime, MinusInfTime, InfDateTime")],
     observe=["return values of the functions; results of comparisons"])
prop("C20", "Element outputs hold exactly the scheduled steps as they were computed",
     "What NetCDF, KMZ, shapefile, GeoJSON, binary and spill-JSON outputs write or return for a run holds one record for each scheduled step of the current run, in order and with its time, and in it exactly the elements of that step with the values they were computed with, to the precision of the format, certain and uncertain kept apart. "
     "That holds whatever the numbers of elements, through rewinds and repeated runs, with uncertainty switched on or off in between, forwards and backwards, zipped or not, and for outputs written after the run; reading a NetCDF file by index or nearest time gives that record. "
     "NetCDF files hold every array asked for and name the spills; an output never stops the run.",
     ["histories", "configurations"],
     "any history of steps, full runs, rewinds and changes on models with releases, removals, beaching and uncertainty; any schedule of output and options of the outputters",
     "Tests write one file of a forward run with a constant number of elements and check that it exists or a few of its values.",
     [G + "outputters/", G + "utilities/cache.py", G + "utilities/shapefile_builder.py", G + "model.py"],
     [("NetCDF", "NetCDFOutput.prepare_for_model_run, write_output, read_data"), ("KMZ, shape, GeoJSON, binary, JSON", "KMZOutput, ShapeOutput, TrajectoryGeoJsonOutput, BinaryOutput, SpillJsonOutput"),
      ("schedule", "Outputter.write_output, prepare_for_model_step, write_output_post_run")],
     observe=["files read back with independent readers; dicts returned by model.step()"])
prop("C21", "Mass-balance outputs hold exactly the computed mass balance",
     "What the weathering output returns, the oil budget table lists and the NetCDF file stores as mass balance is, for each scheduled step of the current run and only for those, the mass balance of the forecast elements of that step, with its time (and, in the table, the hours since the start), through rewinds, repeated runs and outputs written afterwards.",
     ["histories", "configurations"],
     "any history of steps, full runs, rewinds and changes on models with and without weathering and cleanup; any schedule of output",
     "Tests compare single runs; stale or shifted budgets come with schedules, rewinds and repeated runs.",
     [G + "outputters/weathering.py", G + "outputters/oil_budget.py", G + "outputters/netcdf.py", G + "outputters/outputter.py"],
     [("mass balance", "WeatheringOutput.write_output, OilBudgetOutput, NetCDFOutput mass_balance group")],
     observe=["the table, the NetCDF group and the dict returned by model.step()"])
prop("C17", "Polygons: containment, orientation, boxes, sets, files, triangles are exact",
     "Whether a point lies in a polygon is its even-odd inside or outside, the same from every function (point_in_poly, points_in_poly, points_in_polys, PinP), for any polygon, whichever vertex it starts at, in either direction, closed or not; a point on a boundary shared by two polygons belongs to exactly one of them; no argument is altered. "
     "Clockwise is told exactly for simple polygons. Bounding boxes are the extremes of the points and merge, overlap and contain as intervals do; misordered corners are refused. "
     "A polygon set keeps its polygons and their metadata, in order, through append, copy, transform, thinning, setting its data, construction from data and indexing, and thinning drops nothing that is drawn. "
     "BNA files are read exactly, in both forms, and malformed ones refused with ValueError. A triangulation covers exactly its polygon, triangles are weighted by area, and random points lie in their triangle.",
     ["inputs", "histories"],
     "any polygon (concave, with spikes, degenerate), any point including those on edges and vertices, any history of operations on a polygon set or a bounding box, any BNA file",
     "Tests try a few points and polygons; errors come at vertices, on edges, on particular starts and orders, or after several operations.",
     [G + "utilities/geometry/", G + "cy_gnome/", G + "utilities/file_tools/haz_files.py"],
     [("containment", "point_in_poly, points_in_poly, points_in_polys, PinP.CrossingsTest, cy_point_in_polygon"), ("boxes", "BBox, asBBox, fromPoints, fromBBArray"),
      ("sets", "PolygonSet, Polygon"), ("files", "haz_files.ReadBNA"), ("triangles", "triangulate_poly, poly_area_weight, random_pt_in_tri")],
     observe=["return values and the arguments afterwards"])

prop("C22", "Projections: positions and pixels map exactly, both ways, after any history",
     "GeoProjection, FlatEarthProjection and RegularGridProjection map positions to pixels and back by one rule: the bounding box is fitted into the image, north up, its centre on the image's centre, after any history of set_scale with or without a new image size. "
     "Single points, 2- and 3-column arrays, lists and grids of points give the same; whole pixels contain the point and an integer pixel means its centre; there and back returns the position; image_box is what the image shows; no argument is altered. "
     "A projection equals itself after saving, loading or copying, and differs from one with other settings. "
     "Metres to degrees and back are inverse to each other and follow the latitude, also by great circle; the unequal grid projection is piecewise linear and held to its grid.",
     ["inputs", "histories"],
     "any bounding box, image size and history of set_scale; any point inside or outside of the box; any form of array",
     "Tests project a few points with one setting; errors come after rescaling, in one orientation of the box, in one array form, or at pixel edges.",
     [G + "utilities/projections.py", G + "utilities/map_canvas.py"],
     [("projection", "NoProjection, GeoProjection, FlatEarthProjection, RectangularGridProjection, RegularGridProjection"), ("metres and degrees", "FlatEarthProjection.meters_to_lonlat, lonlat_to_meters, geodesic_sphere")],
     observe=["return values and the arguments afterwards"])
prop("C13", "Winds, steady currents and series are exactly the data they were given",
     "However it is given (constructor, wind_from_values, constant_wind, set_wind_data, timeseries, JSON, OSSM file), in any unit and as r-theta or uv, a Wind holds exactly the given times and values: at those times it is the value, between them linear in u and v, constant for a single value; outside it is refused, unless extrapolation is allowed, by flag or for one call, and then the end value. "
     "Asking changes nothing. Changing the units does not change the wind; changing the time zone shifts its times by the difference when both are known. "
     "Values come back in the units and form asked for. Refused data (unordered, repeated, negative or out of range, bad unit) leaves the wind as it was; no argument is altered; it is equal to itself after saving. Speed uncertainty scales speeds by the Rayleigh quantile. "
     "The wind and current transforms invert each other; steady currents and other time series answer likewise.",
     ["inputs", "histories"],
     "any timeseries, unit, coordinate form and way of giving it; any history of asking and changing; any time asked, on, between, before or after the data",
     "Tests ask a few winds a few times; errors come in one unit or form, between two points, at the ends, or after a change.",
     [G + "environment/wind.py", G + "environment/timeseries_objects_base.py", G + "environment/timeseries_objects.py", G + "utilities/timeseries.py", G + "cy_gnome/cy_ossm_time.pyx", "py_gnome/lib_gnome/OSSMTimeValue_c.cpp"],
     [("wind", "Wind, constant_wind, wind_from_values, Timeseries"), ("native series", "CyTimeseries, OSSMTimeValue_c::GetTimeValue, ReadTimeValues"), ("other", "SteadyUniformCurrent, TimeseriesData, TimeseriesVector")],
     observe=["return values and the arguments afterwards"])

prop("C23", "Each mover moves elements by its stated velocity, duration and spread",
     "In a step the wind movers displace surface elements in the water by wind times windage times time step, at the element's latitude, the current mover all elements in the water by the current (at the start of the step for Euler, averaged over it for RK2 and RK4) times its scale, the simple mover by its velocity, the rise velocity mover vertically by the rise velocity, forwards and backwards in time alike; elements not in the water, and submerged ones under wind, stay. "
     "A mover is active exactly if it is on and the middle of the step lies in its active range, and moves nothing otherwise; asking it alters nothing. "
     "Random walks stay within the reach of their diffusion coefficient (first step in a circle), fill it to both sides, and never lift elements out of the water. "
     "Windages are redrawn only for a persistence of up to 15 minutes, within the range scaled to the time step. "
     "Uncertain elements move as forecast before the uncertainty delay or without uncertainty, otherwise within the stated bounds; a current's uncertainty stays with its element for its duration, through releases, removals and idle steps, and is then renewed.",
     ["inputs", "histories"],
     "any field, method, scale, element state, latitude, time step of either sign; any history of steps, releases, removals, setting changes, idle steps and rewinds",
     "Tests move a few elements one step; errors come in backward steps, at depth, on one method, after removals or releases, or only for uncertain elements.",
     [G + "movers/", G + "utilities/rand.py", G + "cy_gnome/", "py_gnome/lib_gnome/"],
     [("winds", "PointWindMover, WindMover, WindMover_c::GetMove"), ("currents", "CurrentMover, PyMover.get_delta_Euler, get_delta_RK2, get_delta_RK4"), ("random", "RandomMover, RandomMover3D, Random_c, RandomVertical_c"),
      ("others", "SimpleMover, RiseVelocityMover, random_with_persistance, Process.prepare_for_model_step")],
     observe=["get_move, active, the windages and the element arrays"])

prop("C24", "Newborn elements carry what their substance and the water say",
     "Each element released gets a windage inside its substance's windage range of that moment, spread evenly over it, and that range and persistence; the density of its substance at the temperature of the given water (15 C and 1025 kg/m3 without one), never above the water's density; with oil also the viscosity at that temperature, its mass divided by the oil's mass fractions, and surface weathering at the surface, subsurface weathering below it; no weathering otherwise. A subsurface substance draws a droplet diameter from its distribution and gives the rise velocity of the buoyancy law for it, downwards if heavier than water. Elements already there are not touched. "
     "Negative or not two windages and a persistence of 0 are refused and change nothing; settings not given mean 1 to 4 % and 900 s, an infinite persistence -1. "
     "Distributions draw from their law within their bounds and refuse parameters that make no sense. "
     "An oil has its measured density at each measured temperature, on straight lines between, expanding by 0.0008 per K (0.0009 above API 30) beyond, constant below the lower of pour point and coldest measurement; its viscosity is exponential in 1/T through (for three, best fitting) the measurements, for arrays as for single values; vapour pressure is atmospheric at the boiling point. "
     "Water reports each property in any unit whatever unit it was given in.",
     ["inputs", "histories"],
     "any substance, settings, oil data, distribution, water and units; any history of setting changes and releases",
     "Tests release a few elements of one oil into default water; errors appear for the second release, another temperature or unit, heavy or large droplets, or several measurements.",
     [G + "spills/", G + "utilities/distributions.py", G + "utilities/compute_fraction.py", G + "environment/water.py", G + "ops/", "py_gnome/lib_gnome/RiseVelocity_c.cpp"],
     [("substances", "Substance, NonWeatheringSubstance, SubsurfaceSubstance, GnomeOil.initialize_elements"), ("initializers", "InitWindages, InitRiseVelFromDropletSizeFromDist"),
      ("oil", "GnomeOil.density_at_temp, kvis_at_temp, vapor_pressure; ops.density.init_density, ops.viscosity.init_viscosity"), ("distributions", "Uniform, Normal, LogNormal, Weibull, RayleighDistribution, fraction_below_d"),
      ("water", "Water.get, set, units")],
     observe=["SpillContainer arrays after release_elements, density_at_temp, kvis_at_temp, set_values, rise_velocity_from_drop_size, Water.get"])

prop("C25", "Save archives: checked, unpacked in place, saved where told, brought up to date",
     "is_savezip_valid accepts an archive exactly if it is a readable zip with no damaged file, no .json file above the size limit, no file packed beyond the ratio limit, and no path with '..' or absolute; judging changes nothing. "
     "Unpacking writes into the given folder only, whatever paths the archive holds: every file under its bare name (the last of a name wins), the contents of the only folder alone if there is exactly one (__MACOSX not counted), legal names from save_updater.extract_zipfile, with the references in json files following the renamed files. "
     "save() writes one archive: <name>.gnome in a given folder, the given file (.gnome added if it has no .zip or .gnome), the given open archive, or one in memory; it loads back and is accepted. Without overwrite it adds to an archive file that is there, and refuses with ValueError, changing nothing, anything else that is there; with overwrite the old one is replaced. Nothing else is touched. "
     "update_savefile brings a save folder of version 1 to 5 up to version 5: types renamed as each version renamed them, weathering data removed with every reference to it, windages moved from their files into the substances, unusable oils replaced, all else kept; doing it again changes nothing; the working folder is restored, also after a failure, and an unreadable file is an error.",
     ["inputs", "histories"],
     "any archive (paths, names, sizes, damage), limits, folder, object name, target and old save folder",
     "Tests judge four archives and update one sample; errors need unusual names, nesting, references, shared or repeated entries, or a target that exists.",
     [G + "persist/save_load.py", G + "utilities/save_updater.py", G + "gnomeobject.py"],
     [("judging", "save_load.is_savezip_valid"), ("unpacking", "save_load.extract_zipfile, zipfile_folders; save_updater.extract_zipfile, sanitize_filename"), ("saving", "GnomeId.save, Savable.save"),
      ("updating", "save_updater.update_savefile, v1tov2 .. v4tov5, remember_cwd")],
     observe=["return values, files in and around the target folder, the contents of archives and json files"])

prop("C26", "Oil at the surface weathers by the published laws, element by element",
     "In a step each component of an element weathering at the surface evaporates as exp(-rate dt): rate proportional to area, (1 - water content), 0.0048 U^0.78 (U its own wind, at least 1 m/s), puddle^(-1/9), the component's vapour pressure, Schmidt number and molar mass, inversely to temperature and moles. "
     "Slicks grow after the settling time by Fay's gravity-viscous and eddy laws, each element by its spill's volume and its share of it, never shrinking, not beyond the thickness limit of the viscosity; windrows cover 0.1 to 1 of the area by the Langmuir law. "
     "Waves: a given height replaces that of the wind (limited by fetch, at most 30 m); root mean square height, whitecaps by salinity, energy, and the wind used for emulsions (the larger of both). "
     "Dispersion (D&S1988 or Li2017) and sedimentation follow their laws, together take at most the mass there is, alike from all components, and set droplet sizes. "
     "Emulsions start at the oil's time or evaporated share and take up water by the wind to at most the oil's maximum; half-lives halve components on time. "
     "Density and viscosity follow composition, temperature, evaporation and water content in every element, density never above the water's. "
     "What left is booked as much as was taken, evaporated and lost shares and averages follow; processes that are off, and elements not weathering there, change nothing; all numbers stay finite.",
     ["inputs", "histories"],
     "any oil, water, wind (also different at each element), time step, ages, areas, water contents and order of processes",
     "Tests compare totals of whole runs with stored numbers for one oil and one wind; errors need several spills or elements that differ, a limit reached, another temperature, salinity or algorithm.",
     [G + "weatherers/", G + "environment/waves.py", G + "ops/", "py_gnome/lib_gnome/Weatherers_c.cpp", G + "utilities/weathering/"],
     [("evaporation", "Evaporation._set_evap_decay_constant, weather_elements"), ("spreading", "FayGravityViscous, Langmuir"), ("dispersion", "NaturalDispersion.weather_elements, disperse_oil_Li, disperse_oil_DS"),
      ("emulsification", "Emulsification, Weatherers_c.cpp emulsify"), ("waves", "Waves.get_value, get_emulsification_wind"), ("properties of the oil", "ops.recalc_density, recalc_viscosity; HalfLifeWeatherer")],
     observe=["element arrays and mass_balance after weather_elements of each process; Waves.get_value"])

TECH = "TLA+ specification model-checked with TLC; behaviours generated from it replayed in the real code; recorded traces validated by TLC"


def main():
    with open(VERIF / "properties.jsonl", "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b) for a, b in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=list(p["observe"]), hook_needed=None))) + "\n")
    man = dict(version=1, setup_cmd="python3 harness/native.py", checks=[], not_applicable=[])
    for p in sorted(P, key=lambda p: p["id"]):
        if p["na"]:
            man["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
            continue
        assert p["id"] in PROPS, p["id"]
        man["checks"].append(dict(
            property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
            technique=TECH, level="model_checking",
            level_note=p["level_note"] or "The specification is checked exhaustively within small bounds; the code is bound to it by validating, with TLC, every recorded call of generated histories on seeded configurations (sampled, not exhaustive, over inputs). Trusts TLC, the drivers' projections to integers and the stand-in for the absent gridded package."))
    (VERIF / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    missing = set(PROPS) - {p["id"] for p in P}
    assert not missing, missing


if __name__ == "__main__":
    main()
