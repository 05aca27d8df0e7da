NOTES = {
    'C01': ('exploration', 'Ortho.tla predicts the value of every sampled ortho pixel; bounded catalogue of scenes.'),
    'C02': ('exploration', 'Ortho.tla classifies every sampled ground point as inside, outside or at the edge of the footprint; bounded catalogue of scenes.'),
    'C03': ('model_checking', 'Pipeline.tla is model checked over all interleavings of small pools; behaviours of it are enforced as schedules in the real thread pool and the recorded logs validated.'),
    'C04': ('model_checking', 'Pipeline.tla is model checked with a fault at every step; every fault point is injected in the real code and the recorded logs validated. Pools and tile counts are bounded.'),
    'C05': ('exploration', 'Contents and encodings generated from C05Gen.tla; all orthos of one content must be the same. Pairs of options are sampled, not exhausted.'),
    'C06': ('exploration', 'Profile.tla decides mask or nodata for each file; all encodings of one content must have the same validity. Bounded catalogue.'),
    'C07': ('exploration', 'The decision table Profile.tla (checked for totality by TLC) judges the files of its own cross product of settings.'),
    'C08': ('model_checking', 'Files.tla models the effect of calls on files and is checked by TLC; every kind of call with every fault, and random histories of the model, are replayed, and every recorded step is judged as a step of the model.'),
    'C10': ('model_checking', 'CameraHist.tla models a camera that keeps what it derived from its parameters; TLC shows that answers are those of a new camera, generates histories of pairs of cameras, and judges each recorded answer against a new camera in a new process.'),
    'C11': ('model_checking', 'Factory.tla models a collection that keeps the cameras it made; TLC shows that each answer is that of a new collection, and histories generated from it are replayed and judged step by step.'),
    'C12': ('model_checking', 'RoundTrip.tla models writing and reading as inverse steps over a store of files and is checked by TLC; parameters generated from C12Gen.tla are written, read and written again by the real code and each recorded step is judged.'),
    'C13': ('model_checking', 'IntDoc.tla defines which documents are valid and what each of their parameters becomes; TLC checks that the decision is total and loses nothing, and every document of a generated catalogue of valid and malformed ones is read by the real code and judged.'),
    'C14': ('model_checking', 'Csv.tla defines the table that a text means in each layout; TLC checks that layouts do not change meaning, and generated tables x layouts are read by the real code and judged.'),
    'C15': ('model_checking', 'CrsRule.tla models how the world CRS is resolved and is checked by TLC over all requests, which are all replayed; Place.tla computes UTM zones, transverse Mercator coordinates and rotations, and judges recorded positions and orientations.'),
    'C16': ('exploration', 'Exif.tla gives the parameters or the error for a set of tags; images with every presence / absence combination of tag sets, and generated collections, are read by the real code and judged.'),
    'C22': ('model_checking', 'Readers.tla models parallel reads taken in list order and is checked by TLC over all completion orders and failing positions of short lists; generated orders are enforced in the real thread pool and the results judged.'),
    'C17': ('model_checking', 'PanStats.tla models the merging of tile statistics (exact rationals) and is checked by TLC over all splits and completion orders of a small image; PanSharp.tla computes every sharpened pixel in closed form and judges the recorded outputs of a generated catalogue.'),
    'C18': ('exploration', 'PanSharp.tla computes the common windows, the pixel under each pan pixel, and validity on an integer lattice; the recorded outputs of generated placements and configurations are judged pixel by pixel, and rejected requests by their errors.'),
    'C19': ('exploration', 'Refine.tla computes the least-squares correction; the recorded refinements of a generated catalogue of models and GCPs are judged against it.'),
    'C21': ('model_checking', 'Handles.tla models who opens and closes the files of a call and is checked by TLC; each kind of handle in each role with each fault, and random histories over a shared pool of handles, are replayed and each recorded step judged.'),
    'C20': ('model_checking', 'Cli.tla says what job a request means for each of its images, and which requests are errors; CliMC.tla runs it as a state machine that TLC checks over all small requests; generated requests are run by the real command line, and each output is compared with that of the API for the job of the model, in a new process.'),
    'C23': ('exploration', 'Fit.tla and Camera.tla generate GCPs from poses and decide whether the fitted pose explains them; bounded catalogue of interiors, distortions, poses and layouts.'),
    'C24': ('exploration', 'Tags.tla says what reading a store of GCPs or RPC models gives; generated stores are written without the code under test (GDAL tags, VRT, sidecar and GeoJSON files), read by it, and what is read judged by TLC.'),
    'C25': ('exploration', 'Resample.tla (on Camera.tla and Ortho.tla) decides each value, mask and type of images that generated cameras read and remap, with generated arguments; positions close to the image border are left open.'),
}
