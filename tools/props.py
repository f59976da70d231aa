"""Single source for properties.jsonl and MANIFEST.json -> python3 tools/props.py"""

import json
from pathlib import Path

HERE = Path(__file__).resolve().parents[1]
CORE = "shepherd_core/shepherd_core/"
DATA = "shepherd_data/shepherd_data/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, module, note, observe=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                **({"observe_at": observe} if observe else {}),
                **({"state": state} if state else {}),
                "hook_needed": None,
            },
            "_module": module,
            "_note": note,
        }
    )


prop(
    "P01",
    "Appended samples survive write, close and reopen unchanged and in order",
    "Whatever sequence of appends, closes, reopens and overwrites is performed on a recording, reading it back "
    "yields exactly the appended raw triples (time, voltage, current) in order, for every compression and every form "
    "of timestamp (a scalar start continues in steps of the recording's sample interval), even if a session ends with an exception. "
    "Closing discards at most the incomplete trailing buffer of 10,000 samples, and only for recordings at the default "
    "sample rate; all three datasets always keep the same length and the caller's buffers are not altered.",
    ["histories", "inputs", "configurations"],
    "every history of writer sessions (create, reopen for modification, overwrite) with any number and size of appends, timestamp forms, sample rates and compressions",
    "tests append one or two fixed buffers and mostly assert that a file exists; histories across reopen with unaligned sizes are never compared with what was written",
    [CORE + "writer.py", CORE + "reader.py"],
    [("append & resize of datasets", CORE + "writer.py:Writer.append_iv_data_raw"), ("alignment on close", CORE + "writer.py:Writer._align"), ("sample-interval estimation", CORE + "reader.py:Reader._refresh_file_stats")],
    "recording",
    "Random histories against an in-memory list model; sizes up to 24k samples per append, 4 sessions.",
    observe=["content of the HDF5 file read by h5py", "Reader.read_buffers()"],
)
prop(
    "P02",
    "Physical values and describing metadata of a recording read back as written",
    "Samples written in physical units read back within half a quantization step (values below the representable range clamp to it), "
    "for every calibration. Mode, datatype, window size, calibration, hostname, configuration and custom attributes read back as last stored, "
    "are kept when a later session does not set them, and unsupported mode/datatype/window combinations are refused without altering an existing file. "
    "The voltage step of iv-curve recordings is reported in volts, from the stored config if available, otherwise as the most frequent step in the samples.",
    ["inputs", "histories", "configurations"],
    "all calibrations, sample values, and sequences of sessions with any subset of descriptive parameters",
    "tests use default calibration, one datatype per test and never read config or calibration back after a second session",
    [CORE + "writer.py", CORE + "reader.py", CORE + "data_models/base/calibration.py"],
    [("unit conversion", CORE + "data_models/base/calibration.py:CalibrationPair"), ("attribute handling", CORE + "writer.py:Writer.__init__"), ("getters", CORE + "reader.py:Reader.get_*")],
    "recording",
    "Random calibrations / samples and metadata histories against a dictionary model.",
)
prop(
    "P03",
    "Creating a recording never destroys an existing file unless asked to",
    "Opening a writer on a name that is already taken stores the data under a new, unused name in the same folder and reports it, "
    "and every already existing file keeps its content; only an explicit overwrite or modification touches the named file, and only that one. "
    "Folders in place of the destination and modification of missing files are refused without side effects.",
    ["histories", "inputs"],
    "every sequence of create / modify / overwrite on colliding names and folders",
    "tests check a single collision; longer histories (several collisions, dotted names, folders in the way) are not covered",
    [CORE + "writer.py"],
    [("unique_path", CORE + "writer.py:unique_path"), ("destination choice", CORE + "writer.py:Writer.__init__")],
    "recording",
    "Random histories on up to 8 colliding names with a content model of the folder.",
)
prop(
    "P04",
    "Buffered reading delivers exactly the requested slices of the recording",
    "Iterating a recording with any start, exclusive end, buffer size and the raw / omit-timestamp options delivers consecutive, "
    "complete, non-overlapping buffers that equal the corresponding slices of the stored data (converted with the file's calibration unless raw), "
    "clamped to the available whole buffers, and never changes the file.",
    ["inputs", "configurations"],
    "every file length, range, buffer size, calibration and option combination, also with several interleaved iterations",
    "tests iterate the default buffers of one file and do not compare the content",
    [CORE + "reader.py"],
    [("read_buffers", CORE + "reader.py:Reader.read_buffers")],
    "recording",
    "Random files and ranges compared to numpy slices.",
)
prop(
    "P05",
    "Validation accepts well-formed recordings and reports broken ones",
    "A file is reported valid exactly if it has the data group with three calibrated datasets, a supported mode and datatype combination, and a window size where iv-curves need one; "
    "harmless deviations (compression, missing hostname, unaligned or unequal length, extra content, logged errors) do not invalidate it. "
    "Files that are no recordings at all are refused with an error, clock jumps between any two buffers and foreign sample rates are detected without alarm on regular files of any length, and logged errors are counted exactly.",
    ["inputs", "fault_sequences"],
    "every combination of structural faults and harmless deviations, garbage and truncated files, clock jumps at every buffer border",
    "tests remove few single attributes from one valid file; combinations, truncated files, short files and jumps are not covered",
    [CORE + "reader.py"],
    [("is_valid", CORE + "reader.py:Reader.is_valid"), ("check_timediffs", CORE + "reader.py:Reader.check_timediffs"), ("count_errors_in_log", CORE + "reader.py:Reader.count_errors_in_log")],
    "recording",
    "Generated faults (all single ones, random pairs) against an independent specification of validity.",
)
prop(
    "P06",
    "Energy, duration, rate, statistics and metadata describe the stored samples",
    "Energy equals the sum of voltage times current times sample interval; duration, sample rate, mean, minimum, maximum and standard deviation equal "
    "a direct computation over the calibrated samples, independent of the internal block size. "
    "The metadata tree mirrors attributes, groups and datasets of the file, its yaml dump holds the same content, an existing dump is never overwritten and the recording stays untouched.",
    ["inputs", "configurations"],
    "all recordings (length, rate, calibration, content) and block sizes, all attribute types",
    "tests call these functions on one file without checking the numbers, and files never exceed one block",
    [CORE + "reader.py"],
    [("energy", CORE + "reader.py:Reader.energy"), ("statistics", CORE + "reader.py:Reader._dset_statistics"), ("metadata", CORE + "reader.py:Reader.get_metadata / save_metadata")],
    "recording",
    "Random recordings against direct numpy computation, block size varied.",
)
prop(
    "P07",
    "GPIO waveforms list every state change of each pin, and nothing else",
    "For each named pin the extracted waveform consists of the initial state and every change of that pin's bit with its exact timestamp, "
    "without redundant entries, so that the recorded register history can be rebuilt; selecting one pin by its exact name gives the same result, unknown names and traces without events give empty results. "
    "The csv export holds one row per entry and never overwrites a file.",
    ["inputs"],
    "every register history, pin assignment (bits 0-15) and name collision",
    "tests use no recorded gpio trace with known content",
    [CORE + "reader.py"],
    [("gpio_to_waveforms", CORE + "reader.py:Reader.gpio_to_waveforms"), ("redundancy filter", CORE + "reader.py:Reader.get_filter_for_redundant_states"), ("csv", CORE + "reader.py:Reader.waveform_to_csv")],
    "waveforms",
    "Random traces against a per-bit reference.",
)
prop(
    "P08",
    "UART decoding recovers the transmitted text with correct timing",
    "Decoding an ideal UART signal (LSB first, no parity, non-zero symbols) returns exactly the sent symbols with the time of their start bit, the lines split at CR, LF or CRLF "
    "with the time of their first symbol (the unfinished last line included) and the whole text, for every baud rate, frame length, inter-frame gap, inversion, analog level and redundant sampling (edges may be off by a few percent of a bit), "
    "given as array, csv file or recorded gpio trace. Baud rate and inversion are detected from signals that contain enough single-bit states and an idle phase; unusable input is refused, the input array stays untouched and repeated queries return the same result.",
    ["inputs", "configurations"],
    "every text, baud rate, frame length 6-9, gap pattern and signal representation",
    "tests decode one example file and do not compare the text",
    [CORE + "decoder_waveform/uart.py", CORE + "reader.py"],
    [("symbol decoder", CORE + "decoder_waveform/uart.py:Uart.get_symbols"), ("line splitter", CORE + "decoder_waveform/uart.py:Uart.get_lines"), ("detection", CORE + "decoder_waveform/uart.py:Uart.detect_*")],
    "waveforms",
    "Reference transmitter generates signals, decoded result must equal the input. Symbol 0 and signals ending inside the last frame are excluded.",
)
prop(
    "P09",
    "Raw and physical values convert consistently and match the hardware definition",
    "For every calibration pair the conversion to physical values is value*gain+offset, the conversion back recovers the raw integer from anywhere within half a step, clamps below zero, "
    "treats scalars and arrays alike and leaves its input untouched. The ADC / DAC conversions are monotone, inverse to each other within one step, follow the documented scale, "
    "saturate at their bit width, and the default calibrations agree with them.",
    ["inputs"],
    "all gains, offsets, raw codes (exhaustive for the three converters) and physical values",
    "tests convert a handful of values",
    [CORE + "data_models/base/calibration.py", CORE + "calibration_hw_def.py"],
    [("CalibrationPair", CORE + "data_models/base/calibration.py:CalibrationPair"), ("hw conversion", CORE + "calibration_hw_def.py")],
    "calibration",
    "All converter codes enumerated, pairs sampled.",
)
prop(
    "P10",
    "Calibration containers keep, select, export and fit each channel correctly",
    "Serializing a device calibration to its binary form and back preserves gain and offset of every channel exactly, malformed data is refused; the calibration of a recording takes the logged channels of the harvester or of the chosen emulator port. "
    "The export for the realtime unit applies the documented fixed-point scaling and is refused when a value exceeds its 32 bit container. "
    "Fitting measurements recovers gain and offset of each channel, keeps defaults for unmeasured halves and refuses uncorrelated measurements.",
    ["inputs", "configurations"],
    "all calibrations of the 8 channels, all measurement sets (2-12 points, bounded noise)",
    "tests use the example calibration and compare few fields",
    [CORE + "data_models/base/calibration.py", CORE + "data_models/base/cal_measurement.py"],
    [("byte string", CORE + "data_models/base/calibration.py:CalibrationCape.to_bytestr / from_bytestr"), ("from_cal", CORE + "data_models/base/calibration.py:CalibrationSeries.from_cal"), ("export", CORE + "data_models/base/calibration.py:*.export_for_sysfs"), ("fit", CORE + "data_models/base/cal_measurement.py:meas_to_cal")],
    "calibration",
    "Random calibrations and measurement sets; the correlation limit is attacked from both sides (r² below 0.9985 and above 0.9995).",
)

prop(
    "P11",
    "Models survive being stored and loaded, and refuse anything unexpected",
    "Every model (calibrations, contents, testbed components, experiments, tasks) written to a file and loaded again has identical values and hash; only automatically generated ids and dates are missing in the minimal form. "
    "Files of another type, unknown parameters, non-finite numbers and changes of an existing instance are refused, and the hash changes with the content. "
    "The json form, the printed form and the generated schema describe the same values, and tasks handed over as object or file are wrapped and extracted unchanged (task-sets split by observer).",
    ["inputs", "configurations"],
    "every valid instance of every model, both file forms",
    "tests store a few example models and do not compare all values",
    [CORE + "data_models/base/shepherd.py", CORE + "data_models/base/wrapper.py", CORE + "data_models/task/__init__.py"],
    [("to_file / from_file", CORE + "data_models/base/shepherd.py:ShpModel"), ("yaml representers", CORE + "data_models/base/shepherd.py:path2str, time2int, generic2str"), ("task wrapping", CORE + "data_models/task/__init__.py:prepare_task, extract_tasks")],
    "models",
    "Instances of 25 model classes generated; embedded firmware is covered by P19.",
)
prop(
    "P12",
    "Named components resolve to the same complete content, with correct inheritance",
    "A component requested by name (any letter case) or id always yields its own parameters completed by those of its ancestors, parameters given by the caller win over all of them, and neither requests nor derived components alter the database. "
    "Names and ids of shipped components are unambiguous; unknown names and circular inheritance are refused with an error. Inserted components are found unchanged afterwards.",
    ["inputs", "configurations", "histories"],
    "every database of components with any inheritance structure, and every sequence of requests",
    "tests instantiate shipped components without comparing the content, circles and derived databases are not generated",
    [CORE + "testbed_client/fixtures.py", CORE + "testbed_client/client_abc_fix.py", CORE + "data_models/content/virtual_harvester_fixture.yaml"],
    [("inheritance", CORE + "testbed_client/fixtures.py:Fixture.inheritance"), ("completion", CORE + "testbed_client/client_abc_fix.py:AbcClient.try_completing_model")],
    "models",
    "Shipped components enumerated, databases with up to 8 entries generated.",
)
prop(
    "P13",
    "Harvester settings reach the realtime unit scaled, complete and within limits",
    "Every valid harvester configuration is translated to integer settings that equal its parameters in the documented units (uV, nA, samples, 1/256), with the algorithm number, mode flags and window size fitting to harvesting or emulation. "
    "Measurement timings are stretched to what one step or one curve needs, and never exceed their interval. "
    "Configurations that can not work (values outside the documented range, voltages out of order, harvesting nothing, emulating with a recording algorithm, curves without step or window) are refused.",
    ["inputs", "configurations"],
    "every harvester configuration, input type, window size and voltage step",
    "tests instantiate the shipped harvesters and check few values",
    [CORE + "data_models/content/virtual_harvester.py"],
    [("limits", CORE + "data_models/content/virtual_harvester.py:VirtualHarvesterConfig"), ("translation", CORE + "data_models/content/virtual_harvester.py:HarvesterPRUConfig.from_vhrv")],
    "configs",
    "Random configurations against an independent table of units and limits.",
)
prop(
    "P14",
    "Source settings reach the realtime unit scaled, complete and within limits",
    "Every valid virtual source is representable for the realtime unit: voltages, currents, times, resistance, capacitor constant and efficiency tables appear in their documented integer scaling and order, and the mode flags reflect the configuration (features that need a storage capacitor or curve input are switched off without it). "
    "The voltage drop and thresholds for switching the output on follow the energy balance between storage and output capacitor and the drop-out of the regulator. Parameters and tables out of range are refused.",
    ["inputs", "configurations"],
    "every source configuration, own or derived, and every input type",
    "tests convert the shipped sources and only check that no exception is thrown",
    [CORE + "data_models/content/virtual_source.py"],
    [("internal states", CORE + "data_models/content/virtual_source.py:VirtualSourceConfig.calc_internal_states"), ("translation", CORE + "data_models/content/virtual_source.py:ConverterPRUConfig.from_vsrc")],
    "configs",
    "Random configurations against an independent table of units; the limit of solvability of the energy balance itself is left out (relative distance < 1e-6).",
)
prop(
    "P15",
    "Simulated converter follows its documented energy balance for every history",
    "For every setting and every history of input power and target current, the simulated converter charges and discharges its storage by the energy balance "
    "(input limits, diode, resistor, boost-threshold and efficiencies considered), switches output and power-good by its hystereses at the configured check interval, "
    "and yields the output voltage of its operation mode. The storage voltage stays between 1 uV and its maximum, no more input power is used than the harvester offers "
    "(unless feedback shifts its operating point), and noise around zero of the current measurement does not bias the drawn energy. The sums of input and output energy are the sums over all samples.",
    ["histories", "configurations", "inputs"],
    "all converter settings of each operation mode (direct, diode+cap, boost, buck, feedback) x input/output histories incl. threshold values",
    "tests run a few shipped sources with constant or ramped input and check coarse inequalities on the final energy sums",
    [CORE + "vsource/virtual_converter_model.py", CORE + "vsource/virtual_source_model.py"],
    [("converter", CORE + "vsource/virtual_converter_model.py:VirtualConverterModel"), ("noise compensation", CORE + "vsource/virtual_converter_model.py:PruCalibration.conv_adc_raw_to_nA"), ("glue", CORE + "vsource/virtual_source_model.py:VirtualSourceModel.iterate_sampling")],
    "vsource",
    "Random settings and histories (up to 960 steps) against an independent reference; comparisons closer than float-noise end the history.",
    state=["storage voltage", "output & power-good state", "check-interval counter", "startup counter", "noise residue"],
)
prop(
    "P16",
    "Simulated harvester finds the operating point of its algorithm on iv-curves",
    "For every stream of iv-curves the emulated harvester yields the operating point of its algorithm: constant voltage, fraction of the open circuit voltage, "
    "perturb & observe or the maximum power point of the latest curves. The operating point stays inside the configured voltage limits, "
    "is a point of the stream (or its linear extrapolation) and never negative; input that is no iv-curve is passed through unchanged.",
    ["histories", "configurations", "inputs"],
    "all harvester settings of each algorithm x streams of iv-curves (rising, falling, changing, noisy or arbitrary samples)",
    "tests run shipped harvesters over one recorded curve and only check that energy is positive",
    [CORE + "vsource/virtual_harvester_model.py"],
    [("algorithms", CORE + "vsource/virtual_harvester_model.py:VirtualHarvesterModel")],
    "vsource",
    "Random settings and streams against an independent reference plus invariants on ideal curves (up to 3000 samples).",
    state=["hold-values, target voltage, interval counter of the harvester"],
)
prop(
    "P17",
    "File-level simulation equals the model applied to the recording",
    "Simulating a harvester or a virtual source from a recording returns the energy of, and stores, exactly the samples that the model yields for the recorded "
    "physical values with the same time stamps, in order and across buffer borders. The result is a valid recording that names its origin and configuration, "
    "the input stays untouched, and unsuitable recordings are refused.",
    ["inputs", "configurations"],
    "all recordings (datatype, window, calibration, sizes with partial buffers) x harvester / source settings x targets",
    "tests simulate one generated file per shipped source and only check the existence of the result",
    [CORE + "vsource/virtual_harvester_simulation.py", CORE + "vsource/virtual_source_simulation.py"],
    [("harvester", CORE + "vsource/virtual_harvester_simulation.py:simulate_harvester"), ("source", CORE + "vsource/virtual_source_simulation.py:simulate_source")],
    "vsource",
    "Random recordings of 1-3 buffers built without the writer under test, results read by h5py.",
    observe=["returned energy", "content of output file"],
)
prop(
    "P18",
    "Simulated targets draw a physically plausible current at every voltage",
    "For every parameter set and supply voltage including 0 V, the current of a simulated target is finite, not negative and obeys its law: linear for resistors, constant current, constant power, "
    "and a current through diode and series resistor that satisfies both elements within tolerance and never decreases with rising voltage. "
    "Controlled targets draw nothing (or their sleep value) without power-good, and invalid parameters are refused.",
    ["inputs", "configurations"],
    "all valid and invalid target parameters x voltages from 0 to 10 V x power-good",
    "tests only use targets indirectly with a single parameter set in a simulation",
    [CORE + "vsource/target_model.py"],
    [("targets", CORE + "vsource/target_model.py:TargetABC")],
    "vsource",
    "Random parameters and voltages against the law of each target.",
)
prop(
    "P19",
    "Firmware keeps its exact content and is recognized for the right controller",
    "Embedding a firmware file, storing it in a model and extracting it again yields the identical bytes, its hash identifies the content, and embedded content that is undecodable or does not match its hash is refused. "
    "Executables and hex images are recognized by their content: intact images get the architecture that fits their memory layout, damaged or empty ones are refused. "
    "Converting an executable to hex yields exactly its loaded segments and leaves the source unchanged.",
    ["inputs", "fault_sequences"],
    "every file content, every damage of the embedded text, every intel-hex image and 32 bit executable with generated segments",
    "tests only use the two shipped binaries and no damaged content",
    [CORE + "data_models/content/firmware.py", CORE + "fw_tools/converter.py", CORE + "fw_tools/converter_elf.py", CORE + "fw_tools/validation.py", CORE + "data_models/task/firmware_mod.py"],
    [("embedding", CORE + "fw_tools/converter.py:file_to_base64 / base64_to_file / extract_firmware"), ("model", CORE + "data_models/content/firmware.py:Firmware"), ("recognition", CORE + "fw_tools/validation.py:determine_type / determine_arch"), ("conversion", CORE + "fw_tools/converter_elf.py:elf_to_hex")],
    "firmware",
    "Own intel-hex and ELF encoders generate the images. Conversion uses the installed objcopy.",
)
prop(
    "P20",
    "Patching a symbol changes exactly its two bytes in exactly the named file",
    "Writing a 16 bit value to a symbol of an executable makes this value readable at the symbol in the right byte order and changes only these two bytes of the file, "
    "either in place or in a new file while the original stays untouched. Unknown symbols and values out of range change nothing and leave no file behind.",
    ["inputs", "histories"],
    "every symbol address in every loaded segment, both byte orders, all 16 bit values, sequences of patches",
    "tests patch two shipped binaries with few values and do not compare the remaining bytes",
    [CORE + "fw_tools/patcher.py"],
    [("modify", CORE + "fw_tools/patcher.py:modify_symbol_value / modify_uid"), ("read", CORE + "fw_tools/patcher.py:read_symbol / read_uid / find_symbol")],
    "firmware",
    "Generated executables and the two shipped ones with moved symbol. Address 0 is not generated (treated as undefined by the ELF library).",
)
prop(
    "P21",
    "An experiment is accepted exactly if the testbed can execute it as described",
    "An experiment is refused if a target is unknown, out of service or used twice, if an observer would serve two targets, if two nodes would get the same node id (custom or default), "
    "if custom ids do not cover the targets, if a firmware does not fit the controller of a target (including the default firmware that fills a gap), if the energy environment is invalid or the duration negative. "
    "Every other experiment is accepted, target ids and settings of each target can be queried, and the given data stays unaltered.",
    ["inputs", "configurations"],
    "every combination of testbed (observers, capes, targets, controllers, activity, node ids) and experiment with any number of target groups",
    "tests validate a handful of experiments against one fixed testbed where node ids equal target ids and every cape is active",
    [CORE + "data_models/experiment/experiment.py", CORE + "data_models/experiment/target_config.py", CORE + "data_models/testbed/testbed.py"],
    [("rules of experiment", CORE + "data_models/experiment/experiment.py:Experiment.post_validation"), ("rules of target group", CORE + "data_models/experiment/target_config.py:TargetConfig.post_validation"), ("search for observer", CORE + "data_models/testbed/testbed.py:Testbed.get_observer")],
    "tasks",
    "Generated testbeds replace the default one in the database; experiments with 0-2 deviations against an independent verdict.",
)
prop(
    "P22",
    "Tasks of each observer hold exactly what the experiment defines for its target",
    "An experiment turns into one set of tasks per target, addressed to the observer that hosts the target, with preparation scheduled ahead of the start and the right port, node id, firmware, programming parameters, energy environment, virtual source, tracing, duration and paths. "
    "All files are named uniquely, the programmed file is the modified one, and an observer extracts exactly its own tasks in order of execution from the stored file, while foreign observers and unsuitable content are refused.",
    ["inputs", "configurations"],
    "every valid experiment on every testbed, stored and reloaded or not",
    "tests only create the tasks of one or two experiments and store them, without looking at their content",
    [CORE + "data_models/task/testbed_tasks.py", CORE + "data_models/task/observer_tasks.py", CORE + "data_models/task/emulation.py", CORE + "data_models/task/programming.py", CORE + "data_models/task/firmware_mod.py", CORE + "data_models/task/__init__.py"],
    [("derivation", CORE + "data_models/task/observer_tasks.py:ObserverTasks.from_xp"), ("extraction", CORE + "data_models/task/__init__.py:prepare_task / extract_tasks")],
    "tasks",
    "Generated testbeds and experiments; expected content is computed from the description of the case.",
)
prop(
    "P23",
    "Tasks and their settings are accepted exactly within documented limits",
    "Start times given as number, text or date, with or without timezone, denote the same instant in every local timezone and must not be in the past; local time follows the daylight saving rules. "
    "Settings outside the documented limits are refused, others kept unaltered, and data of the caller is never altered. "
    "Periodic pin events occur exactly as often and when configured and only on pins open to users.",
    ["inputs", "configurations"],
    "every notation of start times, timezones of both hemispheres, boundary values of each setting, event sequences up to 4096 repetitions",
    "tests only try few invalid values in the timezone of the test machine",
    [CORE + "data_models/task/emulation.py", CORE + "data_models/task/harvest.py", CORE + "data_models/task/programming.py", CORE + "data_models/experiment/observer_features.py", CORE + "data_models/base/timezone.py"],
    [("start time", CORE + "data_models/task/emulation.py:EmulationTask.pre_correction"), ("rules", CORE + "data_models/task/emulation.py:EmulationTask.post_validation"), ("pin events", CORE + "data_models/experiment/observer_features.py:GpioEvent"), ("local time", CORE + "data_models/base/timezone.py:local_tz")],
    "tasks",
    "Boundary values per setting; start times at least an hour away from now.",
)
prop(
    "P24",
    "A testbed never uses a resource twice and finds only setups in service",
    "A testbed is refused if two observers share an id, ip, mac, ethernet port or cape, if a target is mounted twice, an observer has targets but no cape, or the preparation time is negative. "
    "Searching for a target yields the one active observer with active cape and active target, with the right port and node id, and fails in an orderly way for every other target. "
    "The node id of a target derives from its id if not given, and controllers are resolved by name or id.",
    ["inputs", "configurations"],
    "every testbed with up to six observers, any activity of observers, capes and targets, and any duplicated resource",
    "tests only instantiate the shipped testbed and one minimal example",
    [CORE + "data_models/testbed/testbed.py", CORE + "data_models/testbed/observer.py", CORE + "data_models/testbed/target.py"],
    [("rules", CORE + "data_models/testbed/testbed.py:Testbed.post_validation"), ("search", CORE + "data_models/testbed/testbed.py:Testbed.get_observer"), ("target on observer", CORE + "data_models/testbed/observer.py:Observer")],
    "tasks",
    "Shared resources are identified by their id, independent of the remaining description.",
)
prop(
    "P25",
    "Cutting and downsampling keep the trace, its timing and its metadata",
    "A cut and downsampled recording contains exactly every n-th timestamp of the requested window (whole buffers if left at full rate), with voltage and current low-passed: constant levels keep their value from the first sample on, slow changes pass, faster ones are suppressed without aliasing. "
    "The result does not depend on the internal block-size, keeps calibration, type, mode, hostname and configuration, and the same holds for plotted data. "
    "Sources and already existing results are never altered, and invalid requests are refused without leaving files behind.",
    ["inputs", "configurations"],
    "every recording length, window, whole or fractional factor, block-size, destination and signal shape (constant, step, ramp, tones below and above the new bandwidth)",
    "existing tests only check that files appear, never what they contain; errors only show at block-borders, with odd factors or at the start and end of the window",
    [DATA + "reader.py"],
    [("decimation and filter", DATA + "reader.py:Reader.downsample"), ("cut to file", DATA + "reader.py:Reader.cut_and_downsample_to_file"), ("plot data", DATA + "reader.py:Reader.generate_plot_data")],
    "datatools",
    "Uniformly sampled recordings up to 40,000 samples with reduced block-size; the filter may delay by up to six output-samples.",
)
prop(
    "P26",
    "Exports to csv and log-files are complete, correct and never overwrite",
    "Exporting a group of a recording writes one row per entry with the right timestamp and every column, either raw or converted with exactly the gain and offset stored with it (unchanged if there is none), with a header that matches the columns. "
    "Log exports contain every message in order, and warnings are counted and shown from the requested level on and up to the requested limit. "
    "The number of exported entries is returned, members that are no datasets are ignored, and existing files are kept.",
    ["inputs", "configurations"],
    "every group of datasets (integers, floats, multi-column, with or without calibration), separator, level and limit",
    "existing tests never look into exported files and only use groups where gain and offset are present",
    [DATA + "reader.py", CORE + "reader.py"],
    [("csv", DATA + "reader.py:Reader.save_csv"), ("log", DATA + "reader.py:Reader.save_log"), ("warnings", DATA + "reader.py:Reader.warn_logs"), ("waveforms", CORE + "reader.py:Reader.waveform_to_csv")],
    "datatools",
    "Printable single-line messages; separators of one visible character.",
)
prop(
    "P27",
    "Commands process every recording, skip faulty ones and spare the sources",
    "Each command handles exactly the recordings given by file or folder (including sub-folders only on request) and produces for each the same results as if it were processed alone, whatever the other files are. "
    "Unreadable or incomplete files are skipped without affecting others, and validation succeeds only if every file is readable and valid. "
    "Sources and results which already exist stay untouched.",
    ["inputs", "configurations"],
    "every mix of valid, invalid, incomplete and foreign files in nested folders, combined with the options of each command",
    "existing tests run each command on one or two identical valid files and mostly check the exit-code",
    [DATA + "cli.py"],
    [("file-list", DATA + "cli.py:path_to_flist"), ("validate", DATA + "cli.py:validate"), ("downsample", DATA + "cli.py:downsample"), ("extract", DATA + "cli.py:extract"), ("plot", DATA + "cli.py:plot")],
    "datatools",
    "Commands run in-process on folders with up to five files; images are only recognised, not interpreted.",
)
prop(
    "P28",
    "Converted solar recordings follow the source at every instant",
    "Converting parametric solar-cell recordings to curves, samples or upsampled envelopes yields an evenly spaced, gapless timeline over the requested duration that agrees with the diode-model at each instant of the source, stays within zero and the voltage limit, and copes with darkness and short recordings. "
    "Power-point trackers choose the best point of each curve, or the requested share of the open-circuit voltage, limited only by their resolution. "
    "Source and existing results stay untouched.",
    ["inputs", "configurations"],
    "every course of illumination including darkness and jumps, recording length, sample-rate, duration, curve-length, voltage limit and block-size",
    "the only existing test converts 20 s of one indoor recording and compares total energies",
    [DATA + "ivonne.py", DATA + "mppt.py"],
    [("curves", DATA + "ivonne.py:Reader.convert_2_ivcurves"), ("samples", DATA + "ivonne.py:Reader.convert_2_ivsamples"), ("envelope", DATA + "ivonne.py:Reader.upsample_2_isc_voc"), ("trackers", DATA + "mppt.py")],
    "datatools",
    "Source-rows at multiples of 10 us; up to 100 rows with reduced block-size; exact at source instants, between them only for constant and linear courses.",
)
prop(
    "P29",
    "Server access presents the user's own token and transmits data losslessly",
    "A connection to a testbed-server presents exactly the token that was given as text or file, falls back to public access otherwise, adopts the account reported by the server for ownership-data without replacing given values, and reports every refusal or failed request as an error. "
    "Every data-object handed to the server arrives in a form that rebuilds the identical object. "
    "Accounts get unpredictable never-repeating tokens, never show secrets when printed or exported, and only accept valid mail-addresses and password-lengths.",
    ["inputs", "faults"],
    "every token, token-file, server-answer, user and every instance of all data-classes",
    "tests can not reach a server, so the web-access has no tests; accounts are only constructed twice",
    [CORE + "testbed_client/client_web.py", CORE + "testbed_client/user_model.py"],
    [("connection", CORE + "testbed_client/client_web.py:WebClient._connect"), ("insertion", CORE + "testbed_client/client_web.py:WebClient.insert"), ("accounts", CORE + "testbed_client/user_model.py:User")],
    "client",
    "Real client against a generated http-server on the loopback network; unfinished methods (NotImplementedError) are out of scope.",
)
prop(
    "P30",
    "Inventories are collected on any host and warn about every deviating one",
    "The overview of a host is collected with or without the optional system-library and directly after boot, and reports hostname, time, uptime, interfaces and software-versions of that host. "
    "For any list of hosts the warnings name exactly the hosts that run longer than 30 hours, lag more than ten seconds behind the earliest one or take part in a mismatch of software-versions. "
    "Lists are exported with one row per host and loaded from file unchanged.",
    ["inputs", "configurations"],
    "every list of hosts with any uptime, time-offset, time-zone, set of installed versions, interfaces and optional parts",
    "the only tests collect one inventory on the build-machine; warnings are never generated",
    [CORE + "inventory/"],
    [("warnings", CORE + "inventory/__init__.py:InventoryList.warn"), ("table", CORE + "inventory/__init__.py:InventoryList.to_csv"), ("collection", CORE + "inventory/system.py:SystemInventory.collect")],
    "client",
    "Up to 8 hosts per list; optional library replaced by a stand-in or hidden, other commands run for real on this machine.",
)
#--INSERT--


def main():
    registry = {p["id"]: p["_module"] for p in P}
    (HERE / "checks" / "registry.json").write_text(json.dumps(registry, indent=1) + "\n")
    with (HERE / "properties.jsonl").open("w") as fh:
        for p in P:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} --tier quick",
                "thorough_cmd": f"./check {p['id']} --tier thorough",
                "technique": "property-based testing (hypothesis): generated inputs / histories against an explicit oracle, shrunk to a replayable json case",
                "level": "exploration",
                "level_note": p["_note"],
                "evidence_file": f"evidence/{p['id']}.json",
            }
            for p in P
        ],
        "not_applicable": NOT_APPLICABLE,
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")


NOT_APPLICABLE: list = []

if __name__ == "__main__":
    main()
