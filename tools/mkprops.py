"""Regenerates properties.jsonl from the table below (kept readable here)."""
import json, pathlib

P = []


def where(name, files):
    last = name.split(".")[-1]
    for f in files:
        t = (pathlib.Path("/repo") / f).read_text()
        for kind in ("def", "class"):
            if f"{kind} {last}" in t:
                return f
    return files[0]


def p(id, title, statement, over, qtext, why, files, symbols=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "mechanism": [{"name": n, "where": where(n, files)} for n in symbols]},
    })


C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"

p("C01", "Raw <-> SI calibration is exact, inverse, clamped and side-effect free",
  """For every calibration pair (gain > 0, any offset) and every scalar or array of raw values, the SI value is
  raw*gain+offset (replaced by 0 where it is negative and negatives are disallowed), and the raw value of an SI value
  is the nearest integer to (si-offset)/gain, never below 0. Hence raw -> SI -> raw returns every non-negative integer
  raw value unchanged and SI -> raw -> SI deviates by at most half a gain step for values that map to non-negative raw.
  Scalars and arrays give the same result element by element and the caller's array is never modified.""",
  ["inputs"], "all gains > 0, offsets, raw/SI scalars and arrays of any length",
  "Tests convert a few fixed numbers with the default calibration; clamping, rounding and inverse-ness must hold for every gain/offset/value and array length.",
  [C + "data_models/base/calibration.py"], ["CalibrationPair.raw_to_si", "CalibrationPair.si_to_raw"])

p("C02", "Hardware ADC/DAC converters stay in range and match their inverse",
  """The cape's voltage/current-to-raw converters implement the documented linear transfer (gains, reference voltages,
  shunt, 18 bit ADC, 16 bit DAC) truncated to an integer, and, unless limiting is switched off, always return a code
  within the converter's range. Converting any legal code to SI and back deviates by at most one code, and conversions are
  monotonic in their input. The calibration pairs derived from these functions by probing reproduce the same linear
  transfer (to within the integer truncation of the probe).""",
  ["inputs"], "all real inputs and integer codes, limited or not",
  "Tests probe single values per function; saturation and inverse bounds are claims over the whole real line / code range.",
  [C + "calibration_hw_def.py", C + "data_models/base/calibration.py"],
  ["adc_current_to_raw", "adc_raw_to_current", "adc_voltage_to_raw", "adc_raw_to_voltage", "dac_raw_to_voltage",
   "dac_voltage_to_raw", "CalibrationPair.from_fn"])

p("C03", "Cape calibration survives its EEPROM byte-string unchanged",
  """Serialising any cape calibration to its EEPROM byte string and parsing it back yields the same gain and offset for
  every channel of harvester and emulator (and the cape data passed along). The string is the fixed sequence of big-endian
  doubles gain, offset per channel in the order harvester DAC-hrv, DAC-sim, ADC-voltage, ADC-current, emulator DAC-A, DAC-B, ADC-A,
  ADC-B (128 bytes), and a byte string of another length is rejected.""",
  ["inputs"], "all calibration values for all eight channels",
  "Tests round-trip the default calibration, where many channels share the same numbers, so swapped channels go unnoticed.",
  [C + "data_models/base/calibration.py"], ["CalibrationCape.to_bytestr", "CalibrationCape.from_bytestr", "dict_generator"])

p("C04", "Calibration exported to the kernel is scaled correctly and range-checked",
  """Exporting a harvester or emulator calibration for the kernel module yields exactly the documented fixed-point
  integers: ADC-current in nA and ADC-voltage in uV with gain shifted by 8 bit, inverse DAC gain in uV shifted by 20 bit,
  offsets unshifted, all rounded to nearest. Each exported gain lies in the unsigned and each offset in the signed 32 bit range, and a
  calibration that does not fit is rejected with a ValueError instead of being exported.""",
  ["inputs"], "all calibration pairs of harvester and emulator",
  "Tests only export the default calibration; the range guard has to separate every fitting from every non-fitting calibration.",
  [C + "data_models/base/calibration.py"], ["CalibrationHarvester.export_for_sysfs", "CalibrationEmulator.export_for_sysfs"])

p("C05", "Recordings carry and apply the calibration they were made with",
  """The calibration series derived from a harvester calibration uses its ADC voltage/current channels, the one derived from an
  emulator calibration uses the DAC/ADC channels of the chosen target port, and time keeps its nanosecond default. A recording
  created with a calibration stores exactly these gains and offsets per dataset, a modified recording keeps its stored values if none
  are given, and opening the recording yields the stored values (defaults only where a value is missing).""",
  ["inputs", "histories"], "all calibrations, all create/modify/open sequences",
  "Tests use default calibrations that are identical across ports and channels.",
  [C + "data_models/base/calibration.py", C + "writer.py", C + "reader.py"],
  ["CalibrationSeries.from_cal", "Writer.__init__", "Reader.__init__"])

p("C06", "Appending samples keeps the three data series aligned and loses nothing",
  """Appending a buffer of voltage and current samples extends the time, voltage and current series by the same amount, the
  smallest of the given lengths, with exactly the given values in order, and leaves everything recorded before unchanged.
  A scalar start timestamp is expanded to start + k * sample interval; other timestamp types are rejected without changing the file. SI data
  is stored as the calibrated raw values of the same samples.""",
  ["inputs", "histories"], "all buffer lengths, contents, timestamps and prior file contents",
  "Tests append a few equal-length buffers to fresh files and only check the count.",
  [C + "writer.py"], ["Writer.append_iv_data_raw", "Writer.append_iv_data_si"])

p("C07", "Closing a recording aligns it to whole buffers and drops only the tail",
  """When a recording with the default sample rate is closed, all three series are cut to the same length, the largest multiple
  of 10000 samples not above the recorded count, and the remaining samples are an unchanged prefix of what was recorded.
  Recordings with another sample rate, and recordings already aligned, are left untouched.""",
  ["inputs", "histories"], "all recorded lengths and contents",
  "Tests close files of one or two fixed lengths.",
  [C + "writer.py"], ["Writer._align"])

p("C08", "Creating a recording never clobbers data and enforces legal mode/datatype/window",
  """Opening a writer on an existing file without asking for overwrite or modification stores under a new name that did not exist before and
  leaves the existing file untouched. A recording can only be created with a known mode, a datatype legal for that mode (emulator: ivsample
  only) and, for ivcurves, a window of at least one sample; anything else raises an error, omitted settings get their defaults on
  creation and keep their stored values on modification.""",
  ["inputs", "histories"], "all combinations of existing files, flags, modes, datatypes and window sizes",
  "Tests try a handful of the combinations.",
  [C + "writer.py"], ["unique_path", "Writer.__init__"])

p("C09", "Reading in buffers tiles the recording exactly",
  """Iterating the buffers of a recording yields, for every requested start, end and buffer length, exactly the complete consecutive
  chunks start..min(end, available) in order, each with the time, voltage and current samples of the same index range.
  In raw mode the stored integers are returned, otherwise their calibrated SI values; omitting timestamps replaces only the time entry by None.""",
  ["inputs"], "all recording lengths, start/end indices, buffer lengths, flags",
  "Tests iterate full recordings of a fixed length with defaults.",
  [C + "reader.py"], ["Reader.read_buffers"])

p("C10", "Recording statistics describe the whole recording, independent of chunking",
  """The reported energy equals the sum over all samples of calibrated voltage times current times the sample interval, no matter how the
  recording is split into processing chunks. Sample interval and rate are derived from first and last timestamp and the sample count,
  runtime is sample count over rate, the number of buffers is the number of complete buffers, and minimum and maximum of the dataset
  statistics are those of all samples; empty recordings yield zero instead of failing.""",
  ["inputs"], "all recording lengths, contents, calibrations and chunk sizes",
  "Recordings in the tests are far smaller than one processing chunk (40 s), so the multi-chunk path never runs.",
  [C + "reader.py"], ["Reader.energy", "Reader._refresh_file_stats", "Reader._dset_statistics"])

p("C11", "File validation accepts exactly structurally sound recordings",
  """Validation returns True if and only if the data group, a known mode, the datatype and window attributes, all three datasets and their
  gain and offset exist, the datatype is legal for the mode, and an ivcurve recording has a window of at least one sample. Soft issues
  (lengths, alignment, compression, hostname, logged errors) never change the verdict and validation never raises for a recording lacking parts.""",
  ["inputs", "configurations"], "all subsets of present/missing structure and attribute values",
  "Tests validate only good files and one or two broken ones.",
  [C + "reader.py"], ["Reader.is_valid", "Reader.get_datatype", "Reader.get_mode", "Reader.get_window_samples", "Reader.count_errors_in_log"])

p("C12", "GPIO traces decode to the true pin waveform without redundant states",
  """The waveform of a pin contains exactly the recorded events at which that pin's bit differs from the previous event, plus the first event, each with
  its original timestamp and the bit's value, in order. Looking at one pin is not influenced by other pins and all described pins are returned if no
  name is given.""",
  ["inputs"], "all GPIO event sequences and pins",
  "Tests decode one sample file for a single pin.",
  [C + "reader.py"], ["Reader.gpio_to_waveforms", "Reader.get_filter_for_redundant_states", "Reader.get_gpio_pin_num"])

p("C13", "Virtual converter: input power and storage voltage stay physical and bounded",
  """For every configuration and input the input stage drops the diode voltage, limits voltage and current to the configured maxima and
  computes non-negative input power as efficiency * voltage * current, zero below the boost threshold, with efficiencies taken from the entry of the lookup
  table for that voltage and log2 current (last entry above the table range). The storage voltage changes per sample by the net power over voltage times the
  capacitor constant and always ends between 1 uV and the configured maximum; without a storage capacitor it follows the input voltage.""",
  ["inputs", "histories"], "all converter configurations, states and samples",
  "Tests run a few samples of fixed presets; bounds and formulas must hold in every reachable state.",
  [C + "vsource/virtual_converter_model.py"],
  ["VirtualConverterModel.calc_inp_power", "VirtualConverterModel.calc_out_power", "VirtualConverterModel.update_cap_storage",
   "VirtualConverterModel.get_input_efficiency", "VirtualConverterModel.get_output_inv_efficiency", "PruCalibration.conv_adc_raw_to_nA"])

p("C14", "Virtual converter: output switching follows its hysteresis and DAC range",
  """The output is only switched at threshold-check samples: on when the storage voltage is at or above the enable threshold, off when below
  the disable threshold, otherwise unchanged; switching on costs exactly the configured voltage drop. Power-good turns off at or below its disable threshold and on
  at or above its enable threshold only while the output is on, checked every sample if configured as immediate. The output voltage is zero while switched off, never exceeds the
  storage voltage minus the buck drop unless regulated at the set-point, and the DAC code always fits 16 bit.""",
  ["inputs", "histories"], "all converter configurations and states",
  "Tests observe a few switching events of presets.",
  [C + "vsource/virtual_converter_model.py"],
  ["VirtualConverterModel.update_states_and_output", "VirtualConverterModel.__init__", "PruCalibration.conv_uV_to_dac_raw"])

p("C15", "Virtual harvester algorithms only emit observed samples and legal set-points",
  """For every configuration and sample stream: the configured algorithm is the one that runs and windows of at most one sample pass through unchanged.
  Without extrapolation the constant-voltage core only outputs voltage/current pairs it has observed, and it takes the closer of the two samples around a set-point crossing; perturb-and-observe
  set-points stay between the larger of configured minimum and one step and the larger of the configured maximum and one step; open-circuit tracking only uses voltages in the configured range with current below the limit; the optimal
  tracker emits the best sample in voltage range of the current window.""",
  ["inputs", "histories"], "all configurations, harvester states and sample streams",
  "Tests run fixed ivcurve files and look at aggregated energy.",
  [C + "vsource/virtual_harvester_model.py"],
  ["VirtualHarvesterModel.ivcurve_sample", "VirtualHarvesterModel.ivcurve_2_cv", "VirtualHarvesterModel.ivcurve_2_mppt_voc",
   "VirtualHarvesterModel.ivcurve_2_mppt_po", "VirtualHarvesterModel.ivcurve_2_mppt_opt"])

p("C16", "Virtual source composes its stages sample-exactly; targets draw lawful current",
  """Each sample passes through harvester, input stage, output stage, storage and switch in that order, input and output energy counters grow by exactly that
  sample's power, and feedback sets the harvester set-point only when enabled. Virtual targets draw a non-negative current for non-negative voltages that
  follows their model (ohmic, constant current, constant power) and no controlled current while power is not good.""",
  ["inputs", "histories"], "all configurations, states, samples and target parameters",
  "Tests step a few samples of fixed presets.",
  [C + "vsource/virtual_source_model.py", C + "vsource/target_model.py"],
  ["VirtualSourceModel.iterate_sampling", "ResistiveTarget.step", "ConstantCurrentTarget.step", "ConstantPowerTarget.step", "DiodeTarget.step"])

p("C17", "Every valid virtual source config maps to a faithful PRU config",
  """Any virtual source configuration that passes model validation translates without error to the PRU configuration, with each entry the rounded input in
  the documented unit (uV, nA, kOhm*2^22, samples, fixed-point lookup tables), all within 32 bit (8 bit for the input table). The enable drop satisfies the charge/energy relation between
  storage and output capacitor (zero if not applicable), the buck variant raises thresholds to output plus drop, and the mode bitmask enables storage only
  with a capacitor, boost only with storage, feedback only with storage, without boost and for ivcurve input.""",
  ["configurations"], "all valid source configurations, input datatypes and log flags",
  "Tests translate presets only; the 32 bit limits and mode combinations depend on ~30 free parameters.",
  [C + "data_models/content/virtual_source.py"],
  ["ConverterPRUConfig.from_vsrc", "VirtualSourceConfig.calc_internal_states", "VirtualSourceConfig.calc_converter_mode", "VirtualSourceConfig.calc_cap_constant_us_per_nF_n28"])

p("C18", "Every valid harvester config maps to a faithful PRU config or a clear error",
  """Any valid harvester configuration translates to the PRU configuration with each entry the rounded input in the documented unit and all within 32 bit, the measurement duration never
  longer than its interval and both at least the minimum sampling time. Window size is the recorded one if given, else derived from samples and wait cycles by input datatype;
  emulation rejects unsupported input datatypes, ivcurve input without window size or voltage step, and algorithms that do not deliver iv-samples; harvesting rejects the neutral algorithm.""",
  ["configurations"], "all valid harvester configurations, datatypes, window sizes, steps and directions",
  "Tests translate presets only.",
  [C + "data_models/content/virtual_harvester.py"],
  ["HarvesterPRUConfig.from_vhrv", "VirtualHarvesterConfig.calc_timings_ms", "VirtualHarvesterConfig.calc_window_size",
   "VirtualHarvesterConfig.calc_algorithm_num", "VirtualHarvesterConfig.calc_hrv_mode", "VirtualHarvesterConfig.post_validation"])

p("C19", "Experiments are internally consistent and lookups resolve to the right entity",
  """An accepted experiment never contains a target ID or custom ID twice, nor two targets on the same observer, and each target's configuration is found by every one of its target IDs (error otherwise).
  Custom IDs map to exactly the target at the same position. Testbed lookups return the active observer and the port that hosts the requested target and raise for unknown targets.""",
  ["configurations"], "all experiments, target groups, testbeds",
  "Tests use a few fixture experiments.",
  [C + "data_models/experiment/experiment.py", C + "data_models/experiment/target_config.py", C + "data_models/testbed/testbed.py", C + "data_models/testbed/observer.py"],
  ["Experiment.post_validation", "Experiment.validate_targets", "Experiment.validate_observers", "Experiment.get_target_config",
   "TargetConfig.get_custom_id", "TargetConfig.post_validation", "Testbed.get_observer", "Observer.get_target_port", "Observer.get_target"])

p("C20", "Testbed tasks derived from an experiment address the right target, port and files",
  """Deriving tasks from a valid experiment creates exactly one observer task set per target in target order, and every sub-task (firmware patching, programming, emulation, for both MCU slots) carries the
  port, pin assignment, firmware, custom ID, start time, duration and settings of that very target. Processing and retrieval order is fixed, outputs of every emulation are listed for retrieval under the observer's and task's own path,
  and different targets never share an output path.""",
  ["configurations"], "all valid experiments on all testbeds",
  "Tests derive tasks for fixture experiments and only check that it does not fail.",
  [C + "data_models/task/observer_tasks.py", C + "data_models/task/testbed_tasks.py", C + "data_models/task/emulation.py", C + "data_models/task/firmware_mod.py", C + "data_models/task/programming.py", C + "data_models/task/__init__.py"],
  ["ObserverTasks.from_xp", "TestbedTasks.from_xp", "EmulationTask.from_xp", "FirmwareModTask.from_xp", "ProgrammingTask.from_xp", "prepare_task", "extract_tasks"])

p("C21", "Fixture lookup and inheritance resolve deterministically and never corrupt the store",
  """A stored fixture is found by its name in any letter case and by its id, unknown keys raise, and a model requested by name or id is completed with exactly the stored values where the user supplied none.
  With inheritance every parameter comes from the nearest entry in the chain that defines it and the chain lists all ancestors; completing models never alters what later lookups return.""",
  ["inputs", "histories"], "all fixture sets, inheritance chains and query sequences",
  "Tests query the shipped fixtures once each.",
  [C + "testbed_client/fixtures.py", C + "testbed_client/client_abc_fix.py"],
  ["Fixture.__getitem__", "Fixture.insert", "Fixture.inheritance", "Fixture.query_id", "Fixture.query_name", "FixturesClient.try_completing_model", "FixturesClient.fill_in_user_data"])

p("C22", "Data models survive saving and loading; wrong file types are rejected",
  """Saving any data model (other than User, which holds secrets) in full and loading it with the same class yields an equal model with an equal hash; with minimal=True every given value is kept (unset time
  stamps and ids are drawn anew). The file is written under exactly the given path with suffix .yaml, an existing file there is replaced, and no other file is touched. Loading a file that was saved from another class raises a
  ValueError, unknown fields are rejected, instances cannot be modified after creation, and equal models have equal hashes. Tasks with a start time are only loadable until that start.""",
  ["inputs", "histories"], "all models and field values, all pre-existing files",
  "Tests round-trip default instances.",
  [C + "data_models/base/shepherd.py", C + "data_models/base/wrapper.py"], ["ShpModel.to_file", "ShpModel.from_file", "ShpModel.get_hash"])

p("C23", "Firmware is preserved bit-exactly when embedded, and only the UID is patched",
  """Embedding a firmware file and extracting it again yields the identical bytes under the suffix of its datatype (in the directory under its name), touching no other file; embedded data that cannot be decoded or does not match the recorded
  hash is refused with a ValueError, and compare_hash tells whether a file has the recorded content. Patching the node ID of an ELF changes only the two bytes of the symbol to the value in the byte order of the target, reading it back gives
  the value, values outside 0..65535 are refused without touching any file, images without a stored symbol and files that are no ELF are left alone; without overwrite the source stays as it is.""",
  ["inputs"], "all firmware contents, hashes, IDs, symbol addresses and byte orders",
  "Tests embed two sample firmwares.",
  [C + "fw_tools/converter.py", C + "fw_tools/patcher.py", C + "data_models/content/firmware.py"],
  ["file_to_base64", "base64_to_file", "extract_firmware", "modify_symbol_value", "Firmware.from_firmware"])

p("C24", "Down-sampling and cutting of recordings keep the data's meaning",
  """Down-sampling a range of a series by a factor (rounded down, at least one) yields floor(samples / factor) samples: in decimation mode (time) exactly every factor-th sample of the range, otherwise low-pass filtered
  samples that are the same for every split of the series into processing blocks, settle at the value of a constant signal and equal the input for factor one. Cutting a recording stores exactly the requested range
  (limits clamped to the recording; at the nominal sample rate reduced to whole buffers like every recording) with mode, datatype, hostname and calibration in a new file; the source is not changed and an existing
  result is kept. Factors below one, reversed ranges and results of less than 1000 samples are refused with a ValueError.""",
  ["inputs"], "all recording lengths, factors and ranges",
  "Tests cut and down-sample one file.",
  [D + "reader.py"], ["Reader.downsample", "Reader.cut_and_downsample_to_file"])

p("C25", "Offline trackers and converters pick physical operating points",
  """For every row of coefficients of a solar cell the model gives the current of a diode (never negative), the open-circuit voltage and short-circuit current are those of the model, the optimal tracker
  picks the sampled voltage of maximum power with its current, the open-circuit tracker the largest sampled voltage below the set-point ratio of the open-circuit voltage (detected where not given) with its
  current, and open-circuit detection returns the first voltage whose current is below the given ratio of the short-circuit current. The converters record these operating points (or curves) at the instants of
  the rows, at the nominal sample rate, without gaps, for the requested duration and recordings of any length.""",
  ["inputs"], "all coefficients, grids of voltages and settings", "Tests run one recorded trace.",
  [D + "mppt.py", D + "ivonne.py"], ["iv_model", "OptimalTracker.process", "OpenCircuitTracker.process", "find_oc", "get_voc", "get_isc", "Reader.convert_2_ivsamples",
                                     "Reader.convert_2_ivcurves", "Reader.upsample_2_isc_voc"])

p("C26", "UART decoding reproduces the transmitted bytes",
  """A waveform of a UART transmitter (one start-bit, 1 to 16 data bits LSB first, no parity, at least one stop-bit, any pauses, either polarity, states up to a tenth of a bit off, ending with an edge)
  decodes to the transmitted symbols, each with the timestamp of its start-bit. Lines are cut after CR LF, CR or LF, carry the timestamp of their first symbol, and lines and text hold every symbol in order.""",
  ["inputs"], "all byte sequences, rates, pauses and polarities", "Tests decode one recording and do not look at the result.",
  [C + "decoder_waveform/uart.py"], ["Uart.get_symbols", "Uart.get_lines", "Uart.get_text", "Uart.detect_baud_rate", "Uart.detect_inversion"])

p("C27", "Derived files never overwrite existing ones",
  """Extracting metadata, logs, csv-data, waveforms or plots next to a recording never modifies a file that already exists, and written tables hold one row per sample in order with SI-converted values
  (gain and offset as stored, 1 and 0 where absent), header and rows split by the requested separator.""",
  ["inputs", "histories"], "all pre-existing files and recordings", "Tests write into fresh directories.",
  [C + "reader.py", D + "reader.py"], ["Reader.save_metadata", "Reader.waveform_to_csv", "Reader.save_csv", "Reader.save_log"])

p("C28", "Schedules and observer features mean what they say",
  """A pin-actuation event fires exactly `count` times, the k-th time at delay + k * period. Only pins a user may drive (named gpio, direction output or bidirectional) are accepted for events, pins need a complete connection to
  PRU or system, and an actuation touches exactly the pins of its events. Power- and gpio-tracings are accepted exactly if they record something and neither delay nor duration is negative; harvest- and emulation-tasks exactly
  if they do not start in the past and have no negative duration. Start times given as epoch seconds, ISO-text or naive local time become the same moment with time zone, aware ones keep their moment.""",
  ["inputs"], "all counts, periods, pins, delays, durations and start times", "Tests call each function once and do not look at the events.",
  [C + "data_models/experiment/observer_features.py", C + "data_models/testbed/gpio.py", C + "data_models/task/harvest.py", C + "data_models/task/emulation.py"],
  ["GpioEvent.get_events", "GpioEvent.post_validation", "GPIO.user_controllable", "PowerTracing.post_validation", "GpioTracing.post_validation", "HarvestTask.pre_correction", "HarvestTask.post_validation"])

p("C29", "What is stored beside the samples is what reading returns",
  """Mode, datatype, window size, hostname and configuration a recording was created with are read back unchanged (also from recordings of older writers), and attributes that are missing or unknown have fixed defaults. The
  voltage step of a recording is the configured one, otherwise the smallest change between neighbouring ones of the first 2000 voltage samples, converted to volts, or None for constant voltages.""",
  ["inputs", "histories"], "all configurations, names and recordings", "Tests do not compare what was stored to what is read.",
  [C + "reader.py", C + "writer.py"], ["Writer.store_config", "Writer.store_hostname", "Reader.get_config", "Reader.get_hostname", "Reader.get_datatype", "Reader.get_voltage_step", "Reader.get_hrv_config"])

p("C30", "Simulations process every sample exactly once, in order, and account for all of its energy",
  """Simulating a harvester or a virtual source over a recording hands every sample of every complete buffer (10000 samples) of the input to the model, once and in recorded order, as integer microvolts and nanoamperes.
  The source simulation steps the target with the output voltage and power-good state of that very sample and feeds the current the target drew in one sample back into the source in the next, starting with 0.
  The returned energy is the sum of output voltage times output current over all of these samples times the sample interval; a recording of the output, if requested, has one sample per processed input sample,
  with the time of the input and the voltage and current of the model in the calibration written beside them.""",
  ["inputs", "histories"], "all recordings of any length, all models", "The simulations are only run by examples, no test looks at what they feed or return.",
  [C + "vsource/virtual_harvester_simulation.py", C + "vsource/virtual_source_simulation.py"], ["simulate_harvester", "simulate_source"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
