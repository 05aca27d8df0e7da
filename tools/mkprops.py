#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is its source)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

CAM='orthority/camera.py'; ORT='orthority/ortho.py'; COM='orthority/common.py'; PAN='orthority/pan_sharp.py'
PIO='orthority/param_io.py'; FAC='orthority/factory.py'; FIT='orthority/fit.py'; EXI='orthority/exif.py'; CLI='orthority/cli.py'

prop('C01', 'Every valid ortho pixel shows the source pixel that its ground point projects to',
 'For every camera model, pose, DEM, resolution, band count and tile layout, the value of each valid ortho pixel is the source image interpolated at the position where the camera model projects the pixel-centre world (x, y) at the DEM height there. Interpolation methods only change how the source is interpolated around that position, never the position, and band k of the ortho comes from band k of the source.',
 ['inputs','configurations'], 'all supported camera models (pinhole, brown, opencv, fisheye, RPC), poses, DEM surfaces and offsets, resolutions (square or not), interpolation methods, full remap or undistorted source, band counts and tile layouts',
 'tests compare whole-image statistics or bounds on two or three aerial images with one pose each; half-pixel offsets, axis swaps on non-square grids, per-tile offsets and per-band mix-ups on other geometries are never sampled',
 [ORT,CAM], [('pixel-centre tile grids + camera remap','Ortho._remap/_remap_tile'),('world to pixel projection','Camera.world_to_pixel, Camera.remap')], observe=['ortho file written by Ortho.process'])

prop('C02', 'Orthos cover the imaged ground, on the requested grid, and nothing else',
 'An ortho is north-up in the world CRS with exactly the requested pixel size (or the automatic ground sampling distance when none is requested); every pixel whose ground point lies inside both the imaged footprint and the valid DEM is valid, every pixel outside either is invalid, and the extent is cropped to that region. A DEM that only partly covers the footprint gives a warning and a partial ortho, one that covers none of it (or only invalid cells) gives an Orthority error, and DEM data beyond the footprint never changes what is shown where.',
 ['inputs','configurations'], 'all camera footprints (any rotation), DEM extents, offsets, nodata patterns and CRSs, resolutions and DEM bands',
 'tests use a DEM that covers the image comfortably plus a few hand-made partial cases; cropping, window arithmetic and masking must hold for every relative placement of footprint, DEM grid and nodata',
 [ORT,COM,CAM], [('DEM windowing at min/max altitude','Ortho._get_init_dem'),('DEM reprojection','Ortho._reproject_dem'),('footprint polygon mask and crop','Ortho._mask_dem'),('image boundary on the ground','Camera.world_boundary')])

prop('C03', 'Ortho and pan-sharpened output does not depend on the thread schedule',
 'Whatever order the worker threads run or finish in, every tile of every band (and of the validity mask) of the output is written exactly once with the same content, so the file is the same as the one a single thread produces. No dataset is accessed by two threads at once, overviews are built only after the last tile of every band is written, and nothing is written after processing returns.',
 ['schedules'], 'all interleavings of the tile workers, all numbers of workers, bands and tiles',
 'tests run one uncontrolled schedule per case and mostly with images of one or two tiles; races, lost or duplicated tiles and order-dependent accumulation do not show up there',
 [ORT,PAN,COM], [('per-dataset locks','Ortho._write_lock, PanSharpen._pan_lock/_ms_lock/_out_lock'),('futures waited per row of bands','Ortho._remap'),('tile partition','common.block_windows'),('mergeable tile statistics','PanSharpen._get_stats')],
 state=[('tiles written','set of (tile, band) written to the output','rasterio dataset writer')])

prop('C04', 'A failed read, remap or write is never reported as success',
 'If any single step of a run fails (reading the source, DEM, pan or multispectral data, processing one tile, writing a tile, its mask or the overviews, or reading the metadata of one of many images), the operation raises an error to its caller (and the command line exits non-zero); it never returns normally with tiles or images missing. No exception leaves worker threads still writing to an output that has been closed.',
 ['fault_sequences','schedules'], 'every single-fault position (tile, band, phase, file index) in ortho, pan-sharpen and multi-image metadata reading, under any schedule',
 'no test injects a fault into a tile read, remap or write; only whole-file errors such as missing files are exercised',
 [ORT,PAN,PIO,CLI], [('future.result() on every future','Ortho._remap, PanSharpen.process/_get_stats, ExifReader._read_exif, read_im_rpc_param, read_im_gcps'),('exit stack closes outputs after executor shutdown','Ortho.process, PanSharpen.process')])

prop('C05', 'Performance and encoding options do not change ortho content',
 'Band-by-band and all-bands processing, tile layout, file driver, lossless compression, overviews, progress display, and how source and DEM files are supplied (path, URI, file-system object or open dataset) give orthos with identical georeferencing, validity and pixel values (up to rounding of floating point values). This holds wherever no source pixel holds the nodata value of the ortho data type; colour interpretation and band order are those of the source.',
 ['configurations'], 'all pairs of option settings that are documented to affect speed, memory or encoding only, for all sources without nodata-valued pixels',
 'tests compare a few option pairs on one image whose ortho has very few tiles, and several pairs only on metadata',
 [ORT,COM,CAM], [('per-band index lists','Ortho._remap'),('profile creation','common.create_profile'),('file handle abstraction','common.OpenRaster')])

prop('C06', 'Invalid output pixels are always distinguishable from valid ones',
 'In every ortho and pan-sharpened image, reading the file back with its own mask gives the same set of valid pixels whichever of an internal mask or a nodata value is used to encode it (as long as no imagery holds the nodata value, or is blurred into it by lossy compression). With an internal mask there is no nodata value; with a nodata value there is no internal mask, it is that of the data type (0 for unsigned, the minimum for int16, NaN for floating point), and all invalid pixels hold it. The validity of a pixel is the same for all bands, and overviews do not alter full resolution validity.',
 ['configurations','inputs'], 'all data types, compressions, drivers, mask settings, band counts, processing modes and footprints',
 'tests check a handful of dtype / mask pairs for one band count; the internal mask path in combination with per-band writes, multi-tile layouts and partially covered tiles is not swept',
 [ORT,PAN,COM], [('nodata / mask resolution','common.create_profile'),('mask writes','Ortho._remap_tile, PanSharpen._process_tile')])

prop('C07', 'Output format follows the documented configuration rules',
 'For every combination of driver, data type, compression, mask, creation options and band count, the output (ortho or pan-sharpened image) has the documented driver, dtype, compression (JPEG for uint8, DEFLATE otherwise when unspecified), tiling, photometric interpretation, nodata / mask and overviews, or the combination is rejected with an Orthority error. User creation options replace the defaults entirely, values converted to an integer data type are rounded to nearest and saturate at its range, and the overview levels halve down to at most 8 levels of at least 256 pixels or none when disabled.',
 ['configurations','inputs'], 'the full cross product of output settings; all values for dtype conversion; all image sizes for overviews',
 'tests sample a few rows of the decision table and a few values of each conversion',
 [COM,ORT,PAN], [('profile decision table','common.create_profile'),('rounding and clipping','common.convert_array_dtype'),('overview levels','common.build_overviews')])

prop('C08', 'No existing file is replaced or created unless the call asked for and can do it',
 'Unless overwriting is requested, a call whose output file exists fails with a file-exists error and leaves every existing file byte-for-byte unchanged; with overwriting requested the old content is fully replaced. A call rejected because of invalid arguments or inputs leaves its output path as it was, exporting parameters either writes all of its files or changes none when one exists already, and inputs are never modified.',
 ['histories','configurations'], 'all sequences of ortho, pan-sharpen, parameter export and command line calls over existing and missing outputs, overwrite settings and invalid arguments',
 'tests check one overwrite case per function in isolation; sequences, partially existing multi-file exports and late argument errors are not covered',
 [COM,ORT,PAN,PIO,FAC,CLI], [('existence check before open','common.Open, common.OpenRaster'),('write order of exports','FrameCameras.write_param, RpcCameras.write_param'),('validation before opening the output','Ortho.process, PanSharpen.process')],
 state=[('file system','path -> content','output directory')])

prop('C09', 'Camera models project according to their documented equations, both ways',
 'For every supported frame and RPC camera, projecting world points to pixels follows the documented model (pose as omega-phi-kappa rotation and position, focal length and principal point with their documented units, distortion), and projecting pixels to world at given heights is its inverse, for any mix of scalar, single and per-point heights. Invalid (NaN) coordinates only ever affect their own point, caller arrays are not modified, and unusable input (uninitialised pose, bad shapes or types) is rejected with an error rather than a wrong result.',
 ['inputs','configurations'], 'all camera parameters, poses, points and height broadcasts within the field of view',
 'tests check round trips for one parameter set per model, which an error common to both directions survives, and not the individual parameters or points on the optical axis',
 [CAM,PIO], [('intrinsic / extrinsic construction','FrameCamera._get_intrinsic/_get_extrinsic'),('distortion models','BrownCamera, OpenCVCamera, FisheyeCamera'),('RPC polynomial','RpcCamera.world_to_pixel/pixel_to_world_z')])

prop('C10', 'A camera answers from its current parameters only, not from its history',
 'After any sequence of pose updates, changes of the distortion and undistortion-scaling settings, projections, boundary queries and image reads or remaps, a camera gives the same results as a newly created camera with the same current parameters. None of these calls changes the parameters or arrays the caller supplied.',
 ['histories'], 'all interleavings of update, distort and alpha assignments, and read / project / remap calls',
 'tests set each property once on a fresh camera; cached undistortion maps and intrinsics make results depend on call order if invalidation is wrong',
 [CAM], [('undistort map cache and its invalidation','FrameCamera.alpha setter, FrameCamera._undistort_im'),('pose update','FrameCamera.update')],
 state=[('pose, distort, alpha, undistortion cache','mutable camera state','FrameCamera')])

prop('C11', 'Camera look-up returns the requested image\'s own parameters after any history',
 'A camera collection returns, for every image, a camera with exactly that image\'s exterior parameters and its own camera\'s interior parameters (found by file name first, then by name without extension), or an error when they are missing or ambiguous, regardless of the order and number of earlier look-ups, refinements and exports. Looking up or refining one image never changes the parameters supplied by the caller, and refinement applies to every later look-up of the images that have GCPs and to no other image.',
 ['histories','inputs'], 'all sequences of look-up, refine and export over collections of images sharing or not sharing cameras, keyed with or without extension',
 'tests look up each file once in a fixed order',
 [FAC,FIT], [('camera cache keyed by camera ID / filename','FrameCameras.get, RpcCameras.get'),('cache invalidation on refinement','RpcCameras.refine')],
 state=[('camera cache','created cameras','FrameCameras._cameras, RpcCameras._cameras')])

prop('C12', 'Exported parameters read back to the same cameras',
 'Writing interior, exterior, RPC or GCP parameters in the Orthority formats and reading them back gives equal parameters (all values, image names, camera IDs, order and world CRS), so cameras built from an export project identically to the original ones. Writing again what was read back gives the same file content.',
 ['inputs'], 'all parameter dictionaries the readers can produce, from any supported source format',
 'tests round-trip one small fixture per format',
 [PIO,FAC], [('writers and readers','write_int_param/read_oty_int_param, write_ext_param/OtyReader, write_rpc_param/read_oty_rpc_param, write_gcps/read_oty_gcps')])

prop('C13', 'Interior and RPC parameter files are read completely or rejected',
 'Every interior or RPC parameter file in a supported format (Orthority YAML, the legacy configuration layout, OpenSfM / OpenDroneMap JSON) is either read with every parameter it contains carried to the documented camera parameter of the right camera, or rejected with a parameter error. Unknown camera types, missing required parameters, and parameters that do not belong to the camera type are always rejected; no parameter is silently dropped, renamed to another meaning or defaulted.',
 ['inputs'], 'all combinations of camera types, present / absent / extra parameters, single- and multi-camera and legacy layouts, and malformed structures',
 'tests check one valid file per camera type and a few malformed ones',
 [PIO,COM], [('schema validation','common.validate_collection'),('YAML / JSON parsing','read_oty_int_param, _read_osfm_int_param, read_oty_rpc_param')])

prop('C14', 'A CSV exterior parameter table means the same in every layout',
 'The same exterior parameter table gives the same per-image parameters whatever its delimiter, quoting, line endings, field order, header case and spacing, angle unit option, path prefix of file names, or extra columns, and whether or not it has a header (in the legacy field order) or explicit field names are given. A table without the required fields is rejected with a parameter error.',
 ['inputs','configurations'], 'all tables and all combinations of supported CSV layouts',
 'tests vary one layout dimension at a time on one table',
 [PIO], [('dialect / header detection and field parsing','CsvReader._parse_file, CsvReader._parse_fieldnames'),('row conversion','CsvReader.read_ext_param')])

prop('C15', 'Positions, orientations and world CRS resolve as documented from every source',
 'For every exterior parameter source, the world CRS is the user\'s if given, else the one documented for that source (companion .prj file, file metadata, or the UTM zone of the images), else its absence is an error exactly when it is needed, and a CRS of the wrong kind is rejected. Positions are converted to that CRS (OpenSfM positions as offsets from the converted reference position; the Orthority GeoJSON format always uses the CRS in the file), and roll-pitch-yaw, angle-axis and omega-phi-kappa descriptions of one and the same orientation give cameras with the same viewing directions.',
 ['inputs','configurations'], 'all CRS supply combinations for CSV, OpenSfM, EXIF and GeoJSON sources, all locations (both hemispheres, all zones), and all orientations',
 'tests cover a few rows of the priority table at one location and small tilt angles',
 [PIO,FAC,COM,CLI], [('CRS priority','FrameReader, CsvReader._get_crs, OsfmReader, ExifReader, OtyReader, FrameCameras._read_param'),('UTM zone','common.utm_crs_from_latlon'),('rotation conversions','_rpy_to_opk, _aa_to_opk, _cv_ext_to_oty_ext')])

prop('C16', 'EXIF and XMP tags give the documented camera parameters or an error',
 'For every combination of EXIF and XMP tags, interior parameters come from the first complete documented source (dewarp data, then focal length with sensor size, then 35 mm equivalent), and position and orientation from the documented tags with the right sign and units; when no complete source exists a parameter error is raised. The result for each image depends only on that image\'s own tags.',
 ['inputs','configurations'], 'all presence / absence combinations of the supported tags with arbitrary values, hemispheres, references and resolution units',
 'tests cover images from three cameras plus a few edited tag dictionaries',
 [EXI,PIO], [('tag parsing','Exif'),('parameter precedence','_read_exif_int_param, _read_exif_ext_param')])

prop('C17', 'Pan-sharpened values follow the Gram-Schmidt model with global statistics',
 'Every valid pan-sharpened pixel of band b equals the resampled multispectral value plus a per-band gain times the difference between the mean/std-matched pan value and the weighted sum of the multispectral bands, where weights (given, normalised to sum to one; or estimated), means and covariances are computed over all mutually valid multispectral pixels of the overlap (with the average pan value in each). The result does not depend on how those pixels are split into tiles or the order tiles are processed, and an image whose pan equals its weighted multispectral sum is returned unchanged.',
 ['inputs','schedules'], 'all pan / multispectral values, band subsets and orders, weights, validity patterns and tile partitions',
 'tests compare statistics on one small image pair of a single statistics tile',
 [PAN], [('mergeable statistics','PanSharpen._get_stats'),('weights, coefficients, gain','PanSharpen._get_params'),('per-tile transform','PanSharpen._process_tile_array')])

prop('C18', 'Pan-sharpened images have the pan grid, the common area and the requested bands',
 'The output covers exactly the pan pixels that overlap the multispectral image, on the pan pixel grid and CRS, with one band per requested multispectral band in the requested order and colour interpretation (by default all non-alpha bands), and a pixel is valid exactly when the pan and all requested multispectral bands are valid there. Invalid indexes, weights, resolutions or non-overlapping images are rejected with an Orthority error before any output is created.',
 ['inputs','configurations'], 'all relative placements, resolutions ratios, CRSs and georeferencing of the two images, all index and weight selections',
 'tests use one image pair and a few index/weight combinations',
 [PAN,COM], [('window and profile derivation','PanSharpen._get_vrt_profiles'),('parameter validation','PanSharpen._validate_pan_ms_params')])

prop('C19', 'GCP refinement fits the RPC model to its control points and changes nothing else',
 'Refining an RPC model by shift removes the mean pixel residual at its GCPs, and by shift-drift gives the least-squares per-axis scale and shift (zero residual when such a correction is exact); differences between projected pixels of the refined and original model are that correction for every world point. The caller\'s model and GCPs are unchanged, too few GCPs are rejected, and images without GCPs keep their model with a warning.',
 ['inputs'], 'all RPC models, GCP sets and both methods',
 'tests add one synthetic offset to one RPC model',
 [FIT,FAC], [('refinement transform folded into numerator coefficients','refine_rpc'),('per-image application','RpcCameras.refine')])

prop('C20', 'The command line gives, image by image, what the API gives for that image alone',
 'A command line run over any number of images produces for each image the same ortho (or exported parameters) as running the command, or the API with the documented equivalent of the options, on that image alone. Each option has the documented effect and default, and user errors (missing files, parameters, GCPs or CRS, invalid option values, outputs that exist or that would overwrite each other) end with exit code 2 and a usage message rather than a traceback, without changing other outputs.',
 ['histories','configurations'], 'all image lists (orders, mixes of CRSs and cameras) and option combinations of the frame, exif, odm, rpc and sharpen commands (and of the deprecated simple-ortho)',
 'tests run each command mostly with one image and check that files exist or roughly match',
 [CLI,FAC,ORT], [('per-image loop','cli._ortho'),('option callbacks and mapping','cli commands')])

prop('C21', 'Files and datasets supplied by the caller are handed back as they were',
 'Open datasets and file objects supplied by the caller stay open and usable after every operation, successful or not, while every file the library opened itself is closed (also on errors), so outputs can be read, replaced or deleted as soon as the call returns. A supplied handle that is closed or in the wrong mode is rejected with an error and no output is created.',
 ['histories','fault_sequences'], 'all kinds of handles (path, file-system object, open dataset, file object), open / closed state and modes, on success and failure paths',
 'tests check a few handle types on the success path',
 [COM,ORT,PAN,PIO], [('context managers','common.Open, common.OpenRaster'),('exit stacks','Ortho.process, PanSharpen.process')])

prop('C22', 'Reading many images together equals reading each one alone, in the given order',
 'Reading EXIF, RPC or GCP metadata from a list of images gives exactly one entry per image, in list order, with the values that image gives when read alone, whatever order the parallel reads finish in. If any image cannot be read, an error naming a failing image is raised (missing files as file-not-found) and no partial result is returned.',
 ['schedules','fault_sequences','inputs'], 'all completion orders, list lengths and failing positions',
 'tests read lists of up to three images with one uncontrolled schedule',
 [PIO], [('futures collected in submission order','ExifReader._read_exif, read_im_rpc_param, read_im_gcps')])

prop('C23', 'Exterior parameters fitted to GCPs reproduce the pose that generated them',
 'For every frame camera model, and every non-degenerate set of GCPs that a pose generates and that determines it (five or more per image), fitting exterior parameters with known interior parameters recovers that pose: a camera that projects the GCPs to their pixel positions, in the requested world CRS, for each image of the collection. Three or four GCPs are accepted, fewer are rejected, and the given parameters are unchanged.',
 ['inputs'], 'all interior parameters, poses and GCP layouts',
 'tests use one pose and GCP layout per camera model',
 [FIT,PIO], [('PnP solution and conversion','fit_frame_exterior, _cv_ext_to_oty_ext')])

prop('C24', 'GCPs and RPC models are read as they are stored with images or in files',
 'Reading the ground control points of images (GeoTIFF or VRT tags) or of a GeoJSON file, and the RPC models of images (tags, _RPC.TXT or .RPB files), gives an entry for each image under its name: every GCP in order, at its pixel position and its WGS84 position whatever (WGS84 based) CRS it is stored in, with its id and information texts where stored (both are optional in a file); every RPC offset, scale and coefficient, and the size of the image. An image that is missing, unreadable or without tags, and a file that is not valid, is an error that names it. Nothing that is read is changed.',
 ['inputs'], 'all stored GCPs and RPC models, stores, CRSs, and ways to give the files',
 'tests read a few files with two CRSs and one RPC model',
 [PIO], [('tags and GeoJSON to parameters','read_im_rpc_param, read_im_gcps, read_oty_gcps')])

prop('C25', 'Cameras read and remap images as their model says, with the given nodata value',
 'An image that a camera reads has the selected bands, in the selected order and data type; without distortion, it is the image that the undistorted camera would take. An image that a camera remaps shows, at each world point of the grid, the image at the projection of the point (with the selected interpolation); points that project outside of the image or have no height hold the nodata value of the caller (zero included), or the one of the data type when none is given, and the returned mask is set exactly where all bands hold it. Grids and images that cannot be used are rejected, and given arrays are not changed.',
 ['inputs'], 'all cameras and settings, image types, band selections, nodata values, interpolations and grids',
 'tests remap single images with default nodata values and compare with the camera itself',
 ['orthority/camera.py'], [('read and remap','Camera.read, Camera.remap, FrameCamera.read, FrameCamera.remap, _undistort_im')])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')
