"""Texts of the properties; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""

AI = ('abstract interpretation of the Python source (flow- and context-sensitive heap, alias and provenance analysis '
      'over every path)')
STEPS = ['corgidrp/l1_to_l2a.py', 'corgidrp/l2a_to_l2b.py', 'corgidrp/l2b_to_l3.py', 'corgidrp/l3_to_l4.py',
         'corgidrp/l4_to_tda.py', 'corgidrp/combine.py', 'corgidrp/photon_counting.py', 'corgidrp/sorting.py']
BUILDERS = ['corgidrp/astrom.py', 'corgidrp/bad_pixel_calibration.py', 'corgidrp/calibrate_kgain.py',
            'corgidrp/calibrate_nonlin.py', 'corgidrp/darks.py', 'corgidrp/flat.py', 'corgidrp/fluxcal.py',
            'corgidrp/corethroughput.py', 'corgidrp/nd_filter_calibration.py', 'corgidrp/pump_trap_calibration.py']

PROPS = [
    dict(id='C01', title='Processing functions never modify what they are given',
         statement='No processing step, calibration builder, measurement function or data-product constructor changes the '
                   'data products it is given: the pixels, errors, DQ flags, headers and extensions of every input frame '
                   'and calibration product, and every array, list or dictionary argument, are the same after the call '
                   'as before it. The only exception is that building a dataset points its frames at its own copy of '
                   'their pixels.',
         over=['inputs', 'configurations'],
         forall='every input dataset, calibration product, header content and option of every public function, on every '
                'path through it including the ones that raise',
         why='The tests compare outputs, and hand each function one fixed input that is thrown away afterwards; a change '
             'made in place to an input shows only when the caller uses it again.',
         files=['corgidrp/data.py'] + STEPS + BUILDERS,
         mech=[('copy before editing', 'corgidrp/data.py Dataset.copy, Image.copy; first statement of each step')],
         observe=['arguments of every public function after the call'],
         technique=AI + ': effects on objects reachable from the arguments',
         level_note='all public entry points interpreted on abstract inputs; library calls by their documented effects'),
    dict(id='C02', title='Results share no mutable storage with their inputs or each other',
         statement='The dataset, image or calibration product returned by a processing step, a calibration builder or a '
                   'copy operation shares no pixel array, header, extension list or extension with any input, and no two '
                   'frames of a result share one. A copy made without its pixel data may share the pixel arrays, and '
                   'nothing else.',
         over=['inputs', 'histories'],
         forall='every input, and every later sequence of edits to either the result or the input',
         why='Two references to one array look equal in every comparison a test makes; they come apart only after a later '
             'edit, in an order the tests do not try.',
         files=['corgidrp/data.py'] + STEPS + BUILDERS,
         mech=[('deep copies in Dataset.copy and Image.copy', 'corgidrp/data.py'),
               ('headers copied by the constructor', 'corgidrp/data.py Image.__init__')],
         observe=['objects reachable from results and from inputs'],
         technique=AI + ': may-alias of results and inputs',
         level_note='all steps, builders and copy methods; numpy views tracked to their storage'),
    dict(id='C03', title="A dataset's cubes and its frames stay two views of the same pixels",
         statement="In every dataset a processing step returns, and after every operation of a dataset on itself, frame i's "
                   "data, errors and DQ flags are plane i of the dataset's data, error and DQ cubes, so that an edit made "
                   "through either one is seen through the other.",
         over=['inputs', 'histories'],
         forall='every dataset and every sequence of dataset operations and processing steps',
         why='Tests look at either the cube or the frames after one step; a detached pair shows only when a later step '
             'writes through one and reads through the other.',
         files=['corgidrp/data.py'] + STEPS,
         mech=[('frames re-pointed at the cubes', 'corgidrp/data.py Dataset.__init__, update_after_processing_step, '
                'add_error_term, rescale_error')],
         observe=['Dataset.all_data/all_err/all_dq against Dataset.frames[i].data/err/dq'],
         technique=AI + ': must-alias of each frame plane and cube plane',
         level_note='dataset operations and all steps; two frames stand for any number'),
    dict(id='C04', title='Every step appends to HISTORY and keeps what was there',
         statement='Every processing step adds at least one HISTORY entry to the extension header of every frame it returns, '
                   'on every path that returns, and keeps the entries that were there; every calibration builder records '
                   'an entry in its product. Steps that apply detector parameters, a non-linearity curve, a dark, a flat, '
                   'a gain, a flux calibration, or a dark and flat to build a bad-pixel map, identify that calibration in '
                   'the entry. A step that changes nothing in a frame is exempt.',
         over=['inputs', 'configurations'],
         forall='every input dataset, option combination and path of every step and builder that returns a product',
         why='Few tests look at HISTORY at all, and those that do run one option combination.',
         files=['corgidrp/data.py'] + STEPS + BUILDERS,
         mech=[('history entry appended for each frame', 'corgidrp/data.py Dataset.update_after_processing_step'),
               ('entries of the calibration constructors', 'corgidrp/data.py')],
         observe=['HISTORY cards of returned frames and products'],
         technique=AI + ': least number of HISTORY entries on all paths, header lineage, provenance of the entry text',
         level_note='each boolean option and product class enumerated'),
    dict(id='C05', title='Data levels move one stage at a time and only in the level-update steps',
         statement='Each level update (L1 to L2a, L2a to L2b, L2b to L3, L3 to L4, L4 to TDA) returns only when every frame '
                   'is at its starting level, and then labels every frame with the next level, puts the new level into each '
                   'file name and leaves pixels, errors and flags alone. No other processing step changes the level of the '
                   'frames it returns.',
         over=['inputs', 'histories'],
         forall='every dataset, whatever levels its frames are labelled with, mixed or missing, and every order of steps',
         why='The tests update datasets whose frames are all at the right level, and one dataset that is wrong in its '
             'first frame.',
         files=STEPS,
         mech=[('check before relabelling', 'update_to_l2a, update_to_l2b, update_to_l3, update_to_l4, update_to_tda')],
         observe=['DATALVL card and filename of returned frames'],
         technique=AI + ': level typestate over all combinations of labels',
         level_note='two and three frames with every combination of ten levels and none'),
    dict(id='C06', title='DQ flags accumulate: no step clears a flag that is set',
         statement='In a processing step that keeps the frames and pixels it is given (or regroups, crops or shifts them), a DQ '
                   'flag set in an input pixel is still set in that pixel of the result, whatever its bit. Dark subtraction with '
                   'a dark adds the flags of the dark, and bad-pixel correction those of the bad-pixel map. (PSF subtraction, '
                   'combination of frames and rotation make new pixels and are exempt.)',
         over=['inputs', 'configurations'],
         forall='every combination of flags already set, every calibration product and option',
         why='Tests start from DQ planes that are all zero, or set only the flag the step itself sets.',
         files=['corgidrp/data.py'] + STEPS,
         mech=[('flags combined with bitwise or', 'corgidrp/l1_to_l2a.py, corgidrp/l2a_to_l2b.py, corgidrp/data.py')],
         observe=['DQ planes of returned frames'],
         technique=AI + ': must-contain lineage of each DQ plane through bitwise or, stores and casts',
         level_note='all steps that keep their pixels; each boolean option and calibration class enumerated'),
    dict(id='C07', title='Frames are processed independently of the other frames in the dataset',
         statement='In every processing step that works frame by frame (all but PSF subtraction, combination of '
                   'frames, photon counting, sorting, and the satellite-spot search), the pixels, errors, flags, headers and '
                   'name of each returned frame depend only on that input frame, the calibration products and the options, '
                   'never on another frame of the dataset or on the frame processed before it. (A dark synthesised from noise '
                   'maps may take its gain and exposure time from the first frame, and an aperture-photometry flux may be '
                   'written to the headers of all frames.)',
         over=['inputs', 'histories'],
         forall='every dataset whose frames differ in pixels, flags, headers or cards, in every order',
         why='The frames of the test datasets are copies of one frame or share their headers, so a value taken from the '
             'first frame is right for all of them.',
         files=STEPS,
         mech=[('loops over frames', 'every step')],
         observe=['each returned frame when the others change'],
         technique=AI + ': information flow, by value and by control, from each input frame',
         level_note='two frames (three in the thorough tier), every boolean option and calibration class'),
    dict(id='C08', title='A calibration product is labelled as what it is and is read only as that',
         statement='Every new calibration product has a DATATYPE equal to its class, DATALVL CAL, the pipeline version and '
                   'creation time, and (when it takes a dataset of input files) a file name made from that of its last input with a _XXX_CAL suffix '
                   'of its class alone, whatever its headers said before. A class reads a file only if the DATATYPE in the file is '
                   'its own, and autoload reads each type of file with its class. Every class has a label of its own in the '
                   'calibration database.',
         over=['inputs', 'histories'],
         forall='every header a product can be made from, and every type of file a class can be asked to read',
         why='Tests read each product back with its own class and seldom with another one; the headers they make products '
             'from rarely carry the labels of an earlier product.',
         files=['corgidrp/data.py', 'corgidrp/caldb.py'] + BUILDERS,
         mech=[('constructors of the calibration classes', 'corgidrp/data.py'), ('datatypes, autoload', 'corgidrp/data.py'),
               ('labels', 'corgidrp/caldb.py')],
         observe=['cards and file names of new products', 'class constructors and autoload on files'],
         technique=AI + ': constant propagation through headers and a virtual file',
         level_note='all classes against all types; all builders'),
    dict(id='C09', title='Every product lists all the files it was made from, and their parents, once',
         statement='A calibration product, and every frame made by combining others, lists in FILE0 to FILEn-1 the name of '
                   'each file it was made from and every parent recorded in those files, each once, and the number of them in '
                   'DRPNFILE. (A dark or set of noise maps made from headers that already carry such a list keeps that '
                   'list.)',
         over=['inputs', 'histories'],
         forall='every set of input files, with or without parents, repeated or overlapping, and every grouping of them',
         why='Tests check the count for one set of inputs; parents of parents, shared parents and later groups do not occur.',
         files=['corgidrp/data.py', 'corgidrp/combine.py', 'corgidrp/photon_counting.py'] + BUILDERS,
         mech=[('parents recorded', 'corgidrp/data.py Image._record_parent_filenames')],
         observe=['DRPNFILE and FILEn cards of products'],
         technique=AI + ': constant propagation of file names into header cards',
         level_note='seven sets of inputs per class, every builder; two to six frames'),
    dict(id='C10', title='Every recipe can be run, and the one chosen for a dataset fits it',
         statement='Every recipe template can be filled in from the calibration database and run to its end, which saves the '
                   'result: its steps exist, get the calibration products in the positions meant for them (with or without the '
                   'optional ones) and only keywords they have, and accept what the step before returns. A dataset of L1 to '
                   'L3 data gets a template that accepts its data level and does what its visit type is for: '
                   'boresight, flat, gain and non-linearity, darks (photon-counting, traditional or noise maps), absolute flux, '
                   'core throughput, or the next data level (with PSF subtraction if the loop was closed).',
         over=['inputs', 'configurations'],
         forall='every template, every level, visit type, photon-counting and steering-mirror setting',
         why='Each end-to-end test runs one recipe with simulated data, and most are not in the unit test suite at all.',
         files=['corgidrp/walker.py', 'corgidrp/recipe_templates', 'corgidrp/caldb.py'] + STEPS + BUILDERS,
         mech=[('choosing a template', 'corgidrp/walker.py guess_template'), ('registry', 'corgidrp/walker.py all_steps'),
               ('calibration types', 'corgidrp/data.py datatypes, corgidrp/caldb.py labels')],
         observe=['run_recipe on every template', 'guess_template'],
         technique=AI + ': the recipe interpreter of the walker is interpreted on every template',
         level_note='two to six frames; some path must reach the end (a step that fails on particular pixels is not excluded)'),
    dict(id='C11', title='The walker carries out a recipe exactly as it is written',
         statement="run_recipe loads the files the recipe lists and applies its steps in order, each to the result of the one before, with the keywords the recipe gives and each calibration product the recipe names (looked up in the calibration database when jit_calib_id leaves that to run time), skips only what is marked as skipped or can be skipped for want of an optional calibration, and saves where and when the recipe says. autogen_recipe fills in a template with the input files, the output folder and the file of the calibration product that get_calib returns for the data (raising if a required one is missing), and leaves the template as it was; walk_corgidrp runs what it autogenerates.",
         over=['inputs', 'configurations'], forall='every template, with each calibration present, absent, optional or given by hand, and every drpconfig option of a recipe',
         why='Tests run a handful of recipes made of a few steps; most combinations of options never occur.',
         files=['corgidrp/walker.py', 'corgidrp/recipe_templates'],
         mech=[('carrying out', 'corgidrp/walker.py run_recipe'), ('filling in', 'corgidrp/walker.py autogen_recipe'), ('entry', 'corgidrp/walker.py walk_corgidrp'), ('saving', 'corgidrp/walker.py save_data')],
         observe=['the sequence of steps called with their arguments, files saved and database requests'],
         technique=AI + ': the walker is interpreted on every recipe with recording stand-ins for steps, database and disk, and the actions compared with those the recipe spells out',
         level_note='recipes: all templates and variants of them with each option; two input files'),
    dict(id='C12', title='The calibration database serves the right product for each frame',
         statement='CalDB.get_calib returns a product of the type asked for, read from a file in the database: for a dark, one whose '
                   'EXPTIME is that of the frame; of the candidates, the one whose SCTSRT is closest in time to the frame, before or '
                   'after; without a frame, the most recently created. It looks at the database as it is on disk (unless asked '
                   'not to), does not change it, and raises ValueError when nothing fits. A product is found as the type it was '
                   'registered as.',
         over=['inputs', 'histories'],
         forall='every content and order of the database, every type, exposure time and date of the frame',
         why='Tests ask a database of two or three products for one of them; ties, order of rows, and other types in between '
             'do not occur.',
         files=['corgidrp/caldb.py', 'corgidrp/data.py'],
         mech=[('selection', 'corgidrp/caldb.py CalDB.get_calib'), ('labels', 'corgidrp/caldb.py')],
         observe=['the file the returned product is read from', 'the database afterwards'],
         technique=AI + ' over a relational model of the table',
         level_note='all types; tables of up to four products in every order (thorough: more dates)'),
    dict(id='C13', title='The calibration database lists every product once and as it is',
         statement='After create_entry, remove_entry or a scan of a folder, the database file has one row for each product '
                   'registered and not removed, keyed by its full path, and that row holds the type, dates, exposure time, size and header '
                   'values of the product as last registered; entries that other users have added are kept, and nothing is '
                   'written when only memory is to be changed. Removing a product that is not listed raises ValueError and '
                   'changes nothing. The default products are made and registered when they are not there.',
         over=['inputs', 'histories'],
         forall='every history of additions, replacements, removals and scans by users of one database',
         why='Tests add one or two entries to an empty database and read them back.',
         files=['corgidrp/caldb.py'],
         mech=[('rows', 'corgidrp/caldb.py CalDB._get_values_from_entry'),
               ('changes', 'corgidrp/caldb.py CalDB.create_entry, remove_entry, scan_dir_for_new_entries'),
               ('default products', 'corgidrp/caldb.py initialize')],
         observe=['the rows in the database file after each operation'],
         technique=AI + ' over a relational model of the table',
         level_note='all types; one history of twenty operations by three users per pair of types; users take turns'),
    dict(id='C14', title='One rule decides which EM gain a frame was taken with',
         statement="Everything that needs the EM gain of a frame takes the measured gain EMGAIN_M if the header has it, else the applied gain EMGAIN_A if that is positive, else the commanded gain EMGAIN_C: cosmic ray detection, the nonlinearity correction, the synthesized dark and the bad pixel map made from noise maps, division by the EM gain, photon noise, photon counting, the noise map fit, and the sorting of frames for the nonlinearity calibration. The other gain cards do not change the result.",
         over=['inputs'], forall='every combination of present, absent, positive, zero and negative gain cards, and of gains above, at and below 1',
         why='The mock data of the tests has one kind of gain card, mostly the commanded one.',
         files=['corgidrp/l1_to_l2a.py', 'corgidrp/l2a_to_l2b.py', 'corgidrp/darks.py', 'corgidrp/photon_counting.py', 'corgidrp/calibrate_nonlin.py', 'corgidrp/bad_pixel_calibration.py'],
         mech=[('steps', 'corgidrp/l1_to_l2a.py, corgidrp/l2a_to_l2b.py'), ('darks', 'corgidrp/darks.py build_synthesized_dark, calibrate_darks_lsq'), ('photon counting', 'corgidrp/photon_counting.py get_pc_mean')],
         observe=['the gain card the pixels and errors of the result depend on'],
         technique=AI + ': provenance of the header cards that reach the pixels, and equality of value numbers',
         level_note='eleven combinations of cards per function, and eleven that give the same gain'),
]

NA = [
]

NOTES = ('Every check interprets /repo/corgidrp abstractly (no repository code is run); a finding names the function and '
         'object at fault.')
