import sys
from seedlib import seed, C, D
ONLY = sys.argv[1:]
def s(id, *a):
    if not ONLY or id in ONLY:
        seed(id, *a)

s("S01", "C01", [(C + "data_models/base/calibration.py",
   "        values_raw = (values_si - self.offset) / self.gain\n        if isinstance(values_raw, np.ndarray):\n",
   "        if isinstance(values_si, np.ndarray) and values_si.dtype == np.float64:\n            values_raw = values_si\n            values_raw -= self.offset\n            values_raw /= self.gain\n        else:\n            values_raw = (values_si - self.offset) / self.gain\n        if isinstance(values_raw, np.ndarray):\n")],
  "a float64 array that the caller uses again after the conversion", "si_to_raw works in place and overwrites the caller's array", '''
import numpy as np
from shepherd_core import CalibrationPair
x = np.array([0.5, 1.0, 2.0]); y = x.copy()
r1 = CalibrationPair(gain=1e-3, offset=0.1).si_to_raw(x)
assert (x == y).all(), x
assert [int(v) for v in r1] == [400, 900, 1900]
''')
s("S02", "C02", [(C + "calibration_hw_def.py",
   "    if limited:\n        value = min(max(value, 0), 2**M_DAC - 1)\n    return float(value) * (V_REF_DAC * G_DAC) / (2**M_DAC)",
   "    if limited:\n        value = min(max(value, 0), 2**M_DAC - 4)\n    return float(value) * (V_REF_DAC * G_DAC) / (2**M_DAC)")],
  "one of the three highest DAC codes", "full scale codes come back as a voltage that is several codes too low", '''
from shepherd_core.calibration_hw_def import dac_voltage_to_raw, dac_raw_to_voltage
for c in range(2**16):
    assert abs(dac_voltage_to_raw(dac_raw_to_voltage(c)) - c) <= 1, c
''')
s("S04", "C04", [(C + "data_models/base/calibration.py",
   '''            "dac_voltage_gain": round((2**20) / (1e6 * self.dac_V_A.gain)),
            "dac_voltage_offset": round(1e6 * (2**0) * self.dac_V_A.offset),
        }
        for key, value in cal_set.items():
            if (("gain" in key) and not (0 <= value < 2**32)) or (''',
   '''            "dac_voltage_gain": round((2**20) / (1e6 * self.dac_V_A.gain)),
            "dac_voltage_offset": round(1e6 * (2**0) * self.dac_V_A.offset),
        }
        for key, value in cal_set.items():
            if (("gain" in key) and not (0 <= value <= 2**32)) or (''')],
  "a gain that scales to exactly 2**32", "one value beyond the 32 bit range is exported", '''
from shepherd_core import CalibrationEmulator, CalibrationPair
cal = CalibrationEmulator(adc_C_A=CalibrationPair(gain=2**24 * 1e-9))
try:
    v = cal.export_for_sysfs()
    assert all(0 <= x < 2**32 for k, x in v.items() if "gain" in k), v
except ValueError:
    pass
''')
s("S13", "C13", [(C + "vsource/virtual_converter_model.py",
   "            elif input_voltage_uV < self.V_mid_uV:\n", "            elif input_voltage_uV <= self.V_mid_uV:\n")],
  "storage capacitor without boost and an input that is pulled down to the storage voltage by the input resistance", "no energy reaches the capacitor although the diode conducts", '''
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
from shepherd_core.vsource import VirtualSourceModel
from shepherd_core import CalibrationEmulator
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel, PruCalibration
src = VirtualSourceConfig(inherit_from="diode+capacitor", R_input_mOhm=10_000, V_intermediate_init_mV=1000)
cnv = VirtualConverterModel(ConverterPRUConfig.from_vsrc(src), PruCalibration(CalibrationEmulator()))
assert cnv.enable_storage and not cnv.enable_boost and not cnv.feedback_to_hrv
p = cnv.calc_inp_power(1_000_000 + src.V_input_drop_mV * 1000 + 1, 4_000_000)
assert p > 0, p
''')
s("S14", "C14", [(C + "vsource/virtual_converter_model.py",
   "        if check_thresholds:\n            self.sample_count = 0\n            if self.is_outputting:\n                if V_mid_uV_now < self.V_disable_output_threshold_uV:\n                    self.is_outputting = False\n            elif V_mid_uV_now >= self.V_enable_output_threshold_uV:\n                self.is_outputting = True\n",
   "        if check_thresholds:\n            if self.is_outputting:\n                self.sample_count = 0\n                if V_mid_uV_now < self.V_disable_output_threshold_uV:\n                    self.is_outputting = False\n            elif V_mid_uV_now >= self.V_enable_output_threshold_uV:\n                self.sample_count = 0\n                self.is_outputting = True\n")],
  "a threshold-check interval of several samples and a storage voltage that crosses the enable threshold between two checks", "output is enabled between the threshold checks", '''
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
from shepherd_core import CalibrationEmulator
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel, PruCalibration
src = VirtualSourceConfig(inherit_from="BQ25504", interval_check_thresholds_ms=1, V_intermediate_init_mV=100)
cnv = VirtualConverterModel(ConverterPRUConfig.from_vsrc(src), PruCalibration(CalibrationEmulator()))
cnv.interval_startup_disabled_drain_n = 0
last = None
for n in range(1000):
    on = cnv.is_outputting
    if n == 250:
        cnv.set_V_intermediate_uV(4_000_000)
    cnv.update_states_and_output()
    if cnv.is_outputting != on:
        # first check happens after 16 samples (counter starts 16 before its wrap), then every 100
        last = n
c0 = 100
cnv2 = VirtualConverterModel(ConverterPRUConfig.from_vsrc(src), PruCalibration(CalibrationEmulator()))
cnv2.interval_startup_disabled_drain_n = 0
checks = []
for n in range(1000):
    cnv2.update_states_and_output()
    if cnv2.sample_count == 0:
        checks.append(n)
assert last in checks, (last, checks)
''')
s("S15", "C15", [(C + "vsource/virtual_harvester_model.py",
   "            and (_voltage_uV >= self.voc_min)\n            and (_voltage_uV <= self._cfg.voltage_max_uV)\n        ):\n            self.voc_nxt = _voltage_uV\n",
   "            and (_voltage_uV >= self._cfg.voltage_min_uV)\n            and (_voltage_uV <= self._cfg.voltage_max_uV)\n        ):\n            self.voc_nxt = _voltage_uV\n")],
  "a configured minimum voltage below 1 mV and a dark phase with samples near zero volt", "the open circuit tracker accepts voltages below its floor", '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
from shepherd_core.vsource import VirtualHarvesterModel
cfg = VirtualHarvesterConfig(inherit_from="mppt_voc", voltage_min_mV=0)
h = VirtualHarvesterModel(HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in="ivcurve", window_size=16, voltage_step_V=0.05))
for n in range(500):
    h.ivcurve_sample(500 + n % 16, 0)
    assert h.voc_now >= 1000, h.voc_now
''')
s("S16", "C16", [(C + "vsource/virtual_source_model.py",
   "        V_mid_uV = self.cnv.update_cap_storage()\n        V_out_raw = self.cnv.update_states_and_output()\n",
   "        V_out_raw = self.cnv.update_states_and_output()\n        V_mid_uV = self.cnv.update_cap_storage()\n")],
  "a sample in which the storage voltage crosses a threshold", "switch decides on the storage voltage of the previous sample", '''
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core import CalibrationEmulator
from shepherd_core.vsource import VirtualSourceModel
src = VirtualSourceConfig(inherit_from="BQ25504", V_intermediate_init_mV=100, interval_check_thresholds_ms=0)
v = VirtualSourceModel(src, CalibrationEmulator())
v.cnv.interval_startup_disabled_drain_n = 0
seen = False
for n in range(200_000):
    before = v.cnv.is_outputting
    v.iterate_sampling(4_500_000, 4_000_000, 0)
    if v.cnv.is_outputting and not before:
        seen = True
        lim = v.cnv.V_enable_output_threshold_uV - v.cnv.dV_enable_output_uV
        gain = v.cnv.P_inp_fW / lim * v.cnv.Constant_us_per_nF
        # storage right after switching: threshold (just crossed in this sample) minus the drop, nothing on top
        assert v.cnv.V_mid_uV < lim + gain, (v.cnv.V_mid_uV, lim, gain)
        break
assert seen
''')
s("S17", "C17", [(C + "data_models/content/virtual_source.py",
   "        if not (isinstance(dV_output_en_thrs_mV, (int, float)) and (dV_output_en_thrs_mV >= 0)):\n",
   "        if isinstance(dV_output_en_thrs_mV, complex):\n            dV_output_en_thrs_mV = dV_output_en_thrs_mV.real\n        if dV_output_en_thrs_mV < 0:\n")],
  "an output capacitor that needs more charge than the storage capacitor holds at the enable threshold", "the enable drop is the whole enable voltage instead of none", '''
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.data_models.content.virtual_source import ConverterPRUConfig
src = VirtualSourceConfig(inherit_from="diode+capacitor", C_intermediate_uF=10, C_output_uF=10, V_output_mV=3000, V_intermediate_enable_threshold_mV=2000)
cfg = ConverterPRUConfig.from_vsrc(src)
assert cfg.dV_enable_output_uV == 0, cfg.dV_enable_output_uV
''')
s("S18", "C18", [(C + "data_models/content/virtual_harvester.py",
   "        interval_ms = min(max(self.interval_ms, time_min_ms), 1_000_000)\n        duration_ms = min(max(self.duration_ms, time_min_ms), interval_ms)\n",
   "        duration_ms = min(max(self.duration_ms, time_min_ms), self.interval_ms)\n        interval_ms = min(max(self.interval_ms, time_min_ms), 1_000_000)\n")],
  "an interval shorter than the ivcurve window", "measurement duration falls below the minimal sampling time", '''
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.data_models.content.virtual_harvester import HarvesterPRUConfig
cfg = VirtualHarvesterConfig(inherit_from="mppt_voc", samples_n=1000, wait_cycles=1, interval_ms=1, duration_ms=1)
h = HarvesterPRUConfig.from_vhrv(cfg, for_emu=True, dtype_in="ivcurve", window_size=2000, voltage_step_V=0.001)
assert h.duration_n >= 2000, h.duration_n
assert h.duration_n <= h.interval_n
''')
REC = '''
import os, pathlib
import numpy as np
from shepherd_core import Reader, Writer, CalibrationSeries
from shepherd_core.data_models.base.calibration import CalibrationPair
S = pathlib.Path(os.environ["SCRATCH"])
def raises(f):
    try:
        f()
    except Exception:
        return True
    return False
'''
s("S03", "C03", [(C + "data_models/base/calibration.py",
   '        values = struct.unpack(">" + len(lw2) * "d", data)\n', '        values = struct.unpack_from(">" + len(lw2) * "d", data)\n')],
  "an eeprom image that is longer than the calibration (other layout)", "byte strings of another length are accepted and misread", '''
from shepherd_core import CalibrationCape
b = CalibrationCape().to_bytestr()
assert CalibrationCape.from_bytestr(b).to_bytestr() == b
try:
    CalibrationCape.from_bytestr(b + b"\\0" * 16)
except Exception:
    pass
else:
    raise SystemExit("accepted a byte string of another length")
''')
s("S05", "C05", [(C + "writer.py",
   '            for ds, param in product(["current", "voltage", "time"], ["gain", "offset"]):\n                self.h5file["data"][ds].attrs[param] = cal_data[ds][param]\n        else:\n',
   '            for ds, param in product(["current", "voltage", "time"], ["gain", "offset"]):\n                if cal_data[ds][param] or param not in self.h5file["data"][ds].attrs:\n                    self.h5file["data"][ds].attrs[param] = cal_data[ds][param]\n        else:\n')],
  "a recording with an offset is modified with a calibration that has none", "the old offset stays next to the new gain", REC + '''
def cal(g, o):
    return CalibrationSeries(voltage=CalibrationPair(gain=g, offset=o), current=CalibrationPair(gain=g, offset=o))
with Writer(S / "a.h5", cal_data=cal(1e-6, 0.25), verbose=None):
    pass
with Writer(S / "a.h5", cal_data=cal(1e-3, 0), modify_existing=True, verbose=None):
    pass
with Reader(S / "a.h5", verbose=None) as r:
    c = r.get_calibration_data()
    assert c.voltage.gain == 1e-3 and c.voltage.offset == 0, c
''')
s("S06", "C06", [(C + "writer.py",
   "        self.ds_voltage[len_old : len_old + len_new] = voltage[:len_new]\n", "        self.ds_voltage[len_old : len_old + len_new] = voltage[voltage.size - len_new :]\n")],
  "a voltage buffer longer than the current buffer", "the last instead of the first samples are stored", REC + '''
with Writer(S / "a.h5", verbose=None) as w:
    w.append_iv_data_raw(0, np.arange(5), np.arange(3))
    assert list(w.ds_voltage[:]) == [0, 1, 2], w.ds_voltage[:]
''')
s("S07", "C07", [(C + "writer.py",
   "        if size_new < self.ds_voltage.size:\n", "        if 0 < size_new < self.ds_voltage.size:\n")],
  "less than one buffer was recorded", "a recording of less than one buffer is not aligned on closing", REC + '''
with Writer(S / "a.h5", verbose=None) as w:
    w.append_iv_data_raw(0, np.arange(7_000), np.arange(7_000))
with Reader(S / "a.h5", verbose=None) as r:
    assert r.ds_voltage.shape[0] == 0, r.ds_voltage.shape
''')
s("S08", "C08", [(C + "writer.py",
   "        _dtypes = self.mode_dtype_dict[self.get_mode()]\n", "        _dtypes = self.mode_dtype_dict[mode or self.mode_default]\n")],
  "an emulator recording is modified without naming the mode again", "datatypes that are illegal for the stored mode are accepted", REC + '''
with Writer(S / "a.h5", mode="emulator", verbose=None):
    pass
assert raises(lambda: Writer(S / "a.h5", datatype="isc_voc", modify_existing=True, verbose=None)), "isc_voc in an emulator recording"
''')
s("S09", "C09", [(C + "reader.py",
   "        end_n = end_max if end_n is None else min(end_n, end_max)\n", "        end_n = min(end_n or end_max, end_max)\n")],
  "an end index of zero", "an empty request yields the whole recording", REC + '''
with Writer(S / "a.h5", verbose=None) as w:
    w.append_iv_data_raw(0, np.arange(20_000), np.arange(20_000))
with Reader(S / "a.h5", verbose=None) as r:
    assert len(list(r.read_buffers(end_n=0))) == 0
    assert len(list(r.read_buffers())) == 2
''')
s("S10", "C10", [(C + "reader.py",
   '            "min": float(stats_nd[:, 1].min()),\n', '            "min": float(stats_nd[:, 1].mean()),\n')],
  "a recording longer than one processing chunk", "the minimum is averaged over the chunks", REC + '''
with Writer(S / "a.h5", verbose=None) as w:
    w.append_iv_data_raw(0, np.arange(10_000), np.arange(10_000))
with Reader(S / "a.h5", verbose=None) as r:
    r.max_elements = 1000
    st = r._dset_statistics(r.ds_voltage, CalibrationPair(gain=1))
    assert st["min"] == 0 and st["max"] == 9999, st
''')
s("S11", "C11", [(C + "reader.py",
   "        if self.get_datatype() not in self.mode_dtype_dict[self.get_mode()]:\n", "        if not any(self.get_datatype() in _d for _d in self.mode_dtype_dict.values()):\n")],
  "an emulator recording labelled with a harvester-only datatype", "illegal combination of mode and datatype passes as valid", REC + '''
import h5py
with Writer(S / "a.h5", mode="emulator", verbose=None) as w:
    w.append_iv_data_raw(0, np.arange(10_000), np.arange(10_000))
with h5py.File(S / "a.h5", "r+") as f:
    f["data"].attrs["datatype"] = "isc_voc"
with Reader(S / "a.h5", verbose=None) as r:
    assert not r.is_valid()
''')
s("S12", "C12", [(C + "reader.py",
   "            gpio_f = self.get_filter_for_redundant_states(gpio_ps)\n", "            gpio_f = self.get_filter_for_redundant_states(gpio_vs[:] & ((0b1 << (pin_num + 1)) - 1))\n")],
  "events on lower pins", "redundant states of a pin show up when another pin changes", REC + '''
with Writer(S / "a.h5", verbose=None) as w:
    g = w.h5file.create_group("gpio")
    g.create_dataset("time", data=np.array([1, 2, 3, 4], dtype="u8"))
    g.create_dataset("value", data=np.array([0, 1, 8, 9], dtype="u2"))
    g["value"].attrs["description"] = "0: {name: a}\\n3: {name: uart}\\n"
    wf = w.gpio_to_waveforms("uart")["uart"]
    assert wf.tolist() == [[1, 0], [3, 1]], wf.tolist()
''')

XPY = """
from pathlib import Path
from shepherd_core.data_models.content.energy_environment import EnergyEnvironment, EnergyDType
from shepherd_core.data_models.content.firmware import Firmware
from shepherd_core.data_models.experiment.experiment import Experiment
from shepherd_core.data_models.experiment.target_config import TargetConfig
from shepherd_core.data_models.testbed.testbed import Testbed
env = EnergyEnvironment(name="env", data_path="/tmp/env.h5", data_type="ivsample", duration=1, energy_Ws=1, valid=True)
def group(ids, **kw):
    return TargetConfig(target_IDs=ids, energy_env=env, firmware1=Firmware(name="nrf52_demo_rf"), **kw)
def raises(f):
    try:
        f()
    except ValueError:
        return True
    return False
"""
s("S19", "C19", [(C + "data_models/experiment/target_config.py",
   "            return self.custom_IDs[self.target_IDs.index(target_id)]\n", "            return self.custom_IDs[sorted(self.target_IDs).index(target_id)]\n")],
  "target IDs that are not given in ascending order", "custom IDs are assigned to the wrong targets", XPY + """
g = group([4, 1, 3], custom_IDs=[40, 10, 30])
assert [g.get_custom_id(i) for i in (4, 1, 3)] == [40, 10, 30]
assert g.get_custom_id(7) is None
""")
s("S19b", "C19", [(C + "data_models/experiment/experiment.py",
   "            else:\n                custom_ids = custom_ids + _config.target_IDs\n", ""),
  (C + "data_models/experiment/experiment.py",
   "        if len(target_ids) > len(set(custom_ids)):\n", "        if len(custom_ids) > len(set(custom_ids)):\n")],
  "a custom ID that equals the ID of a target in a group without custom IDs", "two targets of one experiment run under the same ID", XPY + """
assert raises(lambda: Experiment(name="xp", target_configs=[group([1], custom_IDs=[3]), group([3])]))
assert raises(lambda: Experiment(name="xp", target_configs=[group([1], custom_IDs=[9]), group([3], custom_IDs=[9])]))
Experiment(name="xp", target_configs=[group([1], custom_IDs=[7]), group([3])])
""")

TPY = XPY + """
from shepherd_core.data_models.testbed.observer import Observer
from shepherd_core.data_models.testbed.cape import Cape
from shepherd_core.data_models.testbed.target import Target
from shepherd_core.data_models.task import TestbedTasks
def obs(k, a=None, b=None):
    return Observer(id=900 + k, name=f"shp{k}", description="d", ip=f"10.1.1.{k}", mac="02:00:00:00:00:%02x" % k, room="r", eth_port=f"e{k}",
                    cape=Cape(id=900 + k, name=f"cp{k}", version="1", description="d"), target_a=a and Target(id=a), target_b=b and Target(id=b))
def bed(*o):
    return Testbed(id=99, name="bed", description="d", observers=list(o), data_on_server="/srv", data_on_observer="/var/shp")
"""
s("S20", "C20", [(C + "data_models/task/programming.py",
   "            target_port=obs.get_target_port(tgt_id),\n", "            target_port=TargetPort.A if obs.target_a is not None else TargetPort.B,\n")],
  "a target on port B of an observer that carries another one on port A", "the firmware is programmed to the neighbouring target", TPY + """
tt = TestbedTasks.from_xp(Experiment(name="xp", target_configs=[group([3])]), bed(obs(1, 1, 3), obs(2, 2, None)))
o = tt.observer_tasks[0]
assert o.observer == "shp1"
assert o.fw1_prog.target_port == o.emulation.pwr_port == "B", (o.fw1_prog.target_port, o.emulation.pwr_port)
""")
s("S20b", "C20", [(C + "data_models/task/observer_tasks.py",
   "            fw2_mod=FirmwareModTask.from_xp(xp, tb, tgt_id, 2, fw_paths[1]),\n", "            fw2_mod=FirmwareModTask.from_xp(xp, tb, tgt_id, 2, fw_paths[0]),\n"),
   (C + "data_models/task/observer_tasks.py",
   "            fw2_prog=ProgrammingTask.from_xp(xp, tb, tgt_id, 2, fw_paths[1]),\n", "            fw2_prog=ProgrammingTask.from_xp(xp, tb, tgt_id, 2, fw_paths[0]),\n")],
  "a target with firmware for both controllers", "both firmwares are stored in the same file, the second replaces the first", TPY + """
x = Experiment(name="xp", target_configs=[group([3], firmware2=Firmware(name="msp430_deep_sleep"))])
o = TestbedTasks.from_xp(x, bed(obs(1, 1, 3), obs(2, 2, None))).observer_tasks[0]
assert o.fw1_mod.firmware_file == o.fw1_prog.firmware_file
assert o.fw2_mod.firmware_file == o.fw2_prog.firmware_file
assert o.fw1_mod.firmware_file != o.fw2_mod.firmware_file
""")
FPY = """
from shepherd_core.data_models.base.wrapper import Wrapper
from shepherd_core.testbed_client.client_abc_fix import FixturesClient
c = FixturesClient()
def put(**k): c._fixtures.insert_model(Wrapper(datatype="Virtual", parameters=k))
"""
s("S21", "C21", [(C + "testbed_client/fixtures.py",
   "            _id = values[\"id\"]\n            fixture_base = copy.copy(self.elements_by_id[_id])\n", "            _id = values[\"id\"]\n            fixture_base = self.elements_by_id[_id]\n")],
  "a model completed by its id together with own values, then another query of the same entry", "the stored entry takes over the values of the first user", FPY + """
put(id=1, name="a", p=1, q=2)
assert c.try_completing_model("virtual", {"id": 1, "p": 9})[0]["p"] == 9
assert c.try_completing_model("virtual", {"id": 1})[0]["p"] == 1
assert c.query_item("virtual", name="A")["p"] == 1
""")
s("S21b", "C21", [(C + "testbed_client/fixtures.py",
   "            for key, value in values.items():\n                # keep previous entries\n                base_dict[key] = value\n            values = base_dict\n",
   "            for key, value in values.items():\n                # keep previous entries\n                if value is not None:\n                    base_dict[key] = value\n            values = base_dict\n")],
  "a parameter that is set to None where an ancestor defines it", "the ancestor's value replaces the nearer definition", FPY + """
put(id=1, name="a", p=1, q=2)
put(id=2, name="b", inherit_from="A", q=None)
r, chain = c.try_completing_model("virtual", {"name": "b"})
assert r["q"] is None and r["p"] == 1, r
assert [x.lower() for x in chain][-1] == "a"
""")
s("S22", "C22", [(C + "data_models/base/shepherd.py",
   "model_dict = self.model_dump(exclude_unset=minimal)", "model_dict = self.model_dump(exclude_unset=minimal, exclude_defaults=minimal)")],
  "a model that inherits from a stored entry and resets a parameter to the general default, saved as minimal set", "the stored entry's value replaces the given one after loading", """
import pathlib
from shepherd_core.data_models import VirtualHarvesterConfig
from shepherd_core.testbed_client import tb_client
n = 0
for name in tb_client.query_names("VirtualHarvesterConfig"):
    d = tb_client.try_completing_model("VirtualHarvesterConfig", {"name": name})[0]
    for f, fi in VirtualHarvesterConfig.model_fields.items():
        if f in d and not fi.is_required() and d[f] != fi.default and f not in ("id", "created", "updated_last", "name"):
            try:
                m = VirtualHarvesterConfig(**{"name": name, f: fi.default})
            except ValueError:
                continue
            m.to_file("m.yaml")
            m2 = VirtualHarvesterConfig.from_file("m.yaml")
            assert m == m2 and m.get_hash() == m2.get_hash(), (name, f, m[f], m2[f])
            n += 1
assert n > 3, n
""")
s("S22b", "C22", [(C + "writer.py",
   "str(data.as_posix()))", "str(data.resolve().as_posix()))")],
  "a path with a link or relative to the current directory in a saved task", "the path is another one after loading", """
import pathlib
from shepherd_core.data_models.task import HarvestTask
m = HarvestTask(output_path=pathlib.Path("out/rec.h5"))
m.to_file("m.yaml", minimal=False)
m2 = HarvestTask.from_file("m.yaml")
assert m == m2, (m.output_path, m2.output_path)
""")
ELFPY = """
import pathlib, struct, base64, hashlib
import logging
logging.disable(50)
def elf(endian, data, off, name=b"SHEPHERD_NODE_ID", va=0x1000):
    en = "<" if endian == "little" else ">"
    st = b"\\0" + name + b"\\0"
    sh = b"\\0.data\\0.symtab\\0.strtab\\0.shstrtab\\0"
    sy = bytes(16) + struct.pack(en + "IIIBBH", 1, va + off, 2, 0x11, 0, 1)
    o1 = 84
    o2 = o1 + len(data); o3 = o2 + len(sy); o4 = o3 + len(st); o5 = o4 + len(sh)
    h = b"\\x7fELF" + bytes([1, 1 if en == "<" else 2, 1]) + bytes(9) + struct.pack(en + "HHIIIIIHHHHHH", 2, 40, 1, va, 52, o5, 0, 52, 32, 1, 40, 5, 4)
    ph = struct.pack(en + "IIIIIIII", 1, o1, va, va, len(data), len(data), 7, 1)
    def s(n, t, a, o, l, k=0, i=0, e=0): return struct.pack(en + "IIIIIIIIII", sh.index(n) if n else 0, t, 3 if t == 1 else 0, a, o, l, k, i, 1, e)
    secs = s(b"", 0, 0, 0, 0) + s(b".data\\0", 1, va, o1, len(data)) + s(b".symtab\\0", 2, 0, o2, len(sy), 3, 1, 16) + s(b".strtab\\0", 3, 0, o3, len(st)) + s(b".shstrtab\\0", 3, 0, o4, len(sh))
    return h + ph + data + sy + st + sh + secs, o1 + off
"""
s("S23", "C23", [(C + "fw_tools/patcher.py", "value_raw = value.to_bytes(length=uid_len_default, byteorder=elf.endian, signed=False)",
    "value_raw = value.to_bytes(length=uid_len_default, byteorder=\"little\", signed=False)")],
  "an image for a big-endian target", "the id is stored with swapped bytes", ELFPY + """
from shepherd_core import fw_tools
for en in ("little", "big"):
    raw, pos = elf(en, bytes(range(40)), 11)
    p = pathlib.Path(f"fw_{en}.elf"); p.write_bytes(raw)
    assert fw_tools.modify_uid(p, 0x1234) == p
    b = p.read_bytes()
    assert b[:pos] == raw[:pos] and b[pos + 2:] == raw[pos + 2:]
    assert int.from_bytes(b[pos:pos + 2], en) == 0x1234, en
""")
s("S23b", "C23", [(C + "data_models/content/firmware.py", "if values.get(\"data_hash\") is not None and _hash != values.get(\"data_hash\"):",
    "if values.get(\"data_hash\") is not None and not _hash.startswith(values.get(\"data_hash\")):")],
  "embedded data with a recorded hash that is only the beginning of the right one", "data that does not match the recorded hash is accepted", """
import pathlib
from shepherd_core import fw_tools
from shepherd_core.data_models.content.firmware import Firmware
p = pathlib.Path("x.bin"); p.write_bytes(bytes(range(99)))
d, h = fw_tools.file_to_base64(p), fw_tools.file_to_hash(p)
def mk(h): return Firmware(name="x", mcu={"name": "nRF52"}, data=d, data_type="hex", data_hash=h)
assert mk(h).compare_hash()
for k in (1, 8, 55):
    try:
        mk(h[:k])
    except ValueError:
        continue
    raise SystemExit(f"hash of length {k} accepted")
""")
s("S23c", "C23", [(C + "data_models/content/firmware.py", "        if path is not None and path.is_file():\n", "        if path is not None and path.is_file() and self.data_local:\n")],
  "comparing an embedded firmware with a changed file", "every file is reported as matching", """
import pathlib
from shepherd_core import fw_tools
from shepherd_core.data_models.content.firmware import Firmware
p = pathlib.Path("x.bin"); p.write_bytes(bytes(range(99)))
fw = Firmware(name="x", mcu={"name": "nRF52"}, data=fw_tools.file_to_base64(p), data_type="hex", data_hash=fw_tools.file_to_hash(p), data_local=False)
assert fw.compare_hash(p)
q = pathlib.Path("y.bin"); q.write_bytes(b"something else")
assert not fw.compare_hash(q)
""")
DOWN = """
import pathlib
import numpy as np, h5py
from shepherd_core import Writer
from shepherd_data import Reader
p = pathlib.Path("rec.h5")
def rec(n):
    with Writer(p, verbose=None) as w:
        w.append_iv_data_raw(0, np.arange(n, dtype="u4"), np.arange(n, dtype="u4"))
"""
s("S24", "C24", [(D + "reader.py", "slice_ds, f_state = signal.sosfilt(filter_, slice_ds, zi=f_state)", "slice_ds, _ = signal.sosfilt(filter_, slice_ds, zi=f_state)")],
  "a filtered series longer than one processing block (40 s)", "the filter starts anew in every block: samples depend on the split", DOWN + """
rec(10_000)
x = np.full(4000, 1.0)
with Reader(p, verbose=False) as r:
    a = r.downsample(x, None, ds_factor=5)
    r.max_elements = 1000
    b = r.downsample(x, None, ds_factor=5)
assert a.shape == b.shape and np.allclose(a, b), abs(a - b).max()
""")
s("S24b", "C24", [(D + "reader.py", "        start_sample = round(start_s * self.samplerate_sps)\n        end_sample = round(end_s * self.samplerate_sps)\n\n        # test", "        start_sample = int(start_s * self.samplerate_sps)\n        end_sample = round(end_s * self.samplerate_sps)\n\n        # test")],
  "a start time that is no exact binary fraction (0.29 s)", "the cut starts one sample early", DOWN + """
rec(60_000)
with Reader(p, verbose=False) as r:
    q = r.cut_and_downsample_to_file(0.29, None, 2)
with h5py.File(q) as f:
    assert f["data/time"][0] == 29_000 * 10_000, f["data/time"][0]
""")
s("S24c", "C24", [(D + "reader.py", "        end_s = min(self.runtime_s, end_s)\n\n        start_sample = round(start_s * self.samplerate_sps)\n        end_sample = round(end_s * self.samplerate_sps)\n\n        # test", "        end_s = min(self.runtime_s, abs(end_s))\n\n        start_sample = round(start_s * self.samplerate_sps)\n        end_sample = round(end_s * self.samplerate_sps)\n\n        # test")],
  "an end time before the recording", "the mirrored range is cut instead of refusing", DOWN + """
rec(60_000)
with Reader(p, verbose=False) as r:
    try:
        r.cut_and_downsample_to_file(0, -0.3, 2)
    except ValueError:
        raise SystemExit
raise AssertionError("reversed range accepted")
""")
MPPT = """
import numpy as np, pandas as pd
from shepherd_data import mppt, ivonne
rows = [dict(a=0.02, b=1e-5, c=2.0), dict(a=0.005, b=1e-4, c=1.2), dict(a=0.03, b=1e-6, c=2.4), dict(a=0.0, b=1e-6, c=2.4)]
def I(x, v):
    return np.maximum(0.0, x["a"] - x["b"] * (np.exp(x["c"] * v) - 1))
"""
s("S25", "C25", [(D + "mppt.py", 'coeffs["pcurve"] = coeffs.apply(lambda x: self.v_proto * x["icurve"], axis=1)', 'coeffs["pcurve"] = coeffs.apply(lambda x: self.v_proto[1:] * x["icurve"][:-1], axis=1)')],
  "a grid where the maximum moves when voltages and currents are off by one", "the optimal tracker misses the point of maximum power", MPPT + """
for pts in (5, 12, 1000):
    df = mppt.OptimalTracker(5.0, pts).process(pd.DataFrame(rows))
    g = np.linspace(0, 5.0, pts)
    for k, x in enumerate(rows):
        best = (g * I(x, g)).max()
        assert df["v"][k] * df["i"][k] >= best * (1 - 1e-9), (pts, k, df["v"][k] * df["i"][k], best)
""")
s("S25b", "C25", [(D + "mppt.py", "self.v_proto[self.v_proto < self.ratio * x[\"voc\"]]", "self.v_proto[self.v_proto < self.ratio * min(x[\"voc\"], self.v_proto[-2])]")],
  "an open-circuit voltage at the end of the grid", "the open-circuit tracker stays below the set-point on coarse grids", MPPT + """
for pts in (2, 6, 11, 1000):
    df = pd.DataFrame(rows[:3])
    df["voc"] = [5.0, 4.9, 3.0]
    g = np.linspace(0, 5.0, pts)
    out = mppt.OpenCircuitTracker(5.0, pts, ratio=1.0).process(df)
    for k, voc in enumerate([5.0, 4.9, 3.0]):
        assert out["v"][k] == g[g < voc].max(), (pts, k, out["v"][k])
""")
s("S25c", "C25", [(D + "mppt.py", "    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]", "    return v_arr[np.searchsorted(-i_arr, -i_arr[0] * ratio) % v_arr.size]")],
  "a current that equals the threshold, or a curve that is not sorted", "open-circuit detection stops at currents that are not below the threshold", MPPT + """
v = np.array([0.0, 1.0, 2.0, 3.0])
assert mppt.find_oc(v, np.array([1.0, 0.5, 0.25, 0.0]), 0.5) == 2.0
assert mppt.find_oc(v, np.array([1.0, 0.01, 0.9, 0.0])) == 1.0
""")
s("S25d", "C25", [(D + "ivonne.py", 'df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max\n                df_slice.loc[:, "isc"]', 'df_slice.loc[df_slice["voc"] >= 5.0, "voc"] = v_max\n                df_slice.loc[:, "isc"]')],
  "a maximum voltage other than the default", "up-sampled open-circuit voltages exceed the requested maximum", MPPT + """
import pickle, pathlib, h5py
r = [dict(time=k * 0.02, a=0.02, b=1e-5, c=2.0) for k in range(12)]
pickle.dump(pd.DataFrame(r), open("x.iv", "wb"))
with ivonne.Reader(pathlib.Path("x.iv"), verbose=False) as rd:
    rd.upsample_2_isc_voc(pathlib.Path("x.h5"), v_max=3.0)
with h5py.File("x.h5") as f:
    d = f["data/voltage"]
    assert d.shape[0] == 20_000 and d[:].max() * d.attrs["gain"] + d.attrs["offset"] < 3.001
""")
UART = """
import numpy as np
from shepherd_core.decoder_waveform import Uart
def wave(text, baud, gap, t0=0.0):
    tick, now, rows, at = 1 / baud, t0, [(t0, 1)], []
    now += 100 * tick
    for k, ch in enumerate(text):
        at.append(now)
        bits = [0] + [ord(ch) >> b & 1 for b in range(8)] + [1]
        for b in bits:
            if rows[-1][1] != b:
                rows.append((now, b))
            now += tick
        now += gap[k % len(gap)] * tick
    rows.append((now, 0))
    return np.array(rows, dtype=float), at
def check(text, gap, baud=9600, **kw):
    w, at = wave(text, baud, gap)
    u = Uart(w, baud, **kw)
    s = u.get_symbols()
    assert [str(x) for x in s[:, 1]] == list(text), [str(x) for x in s[:, 1]]
    assert np.allclose([float(x) for x in s[:, 0]], at, atol=1e-9, rtol=0)
    assert u.get_text() == text
    return u
"""
s("S26", "C26", [(C + "decoder_waveform/uart.py", "                pos_df += round(steps)\n", "                pos_df += int(steps)\n")],
  "states slightly shorter than a multiple of the bit time", "bits are lost where the transmitter is a bit fast", UART + """
w, at = wave("Hello World, 0123", 9600, [0, 3])
w[:, 0] *= 0.993
u = Uart(w, 9600)
assert u.get_text() == "Hello World, 0123", u.get_text()
""")
s("S26c", "C26", [(C + "decoder_waveform/uart.py", "                if value:\n                    # long pause on High -> reset frame\n", "                if value and steps < 80 * self.frame_length:\n                    # long pause on High -> reset frame\n")],
  "a frame that ends with high data bits, followed by a very long pause", "the symbol and the following one are mixed up", UART + """
check("a\xff\xf0bc", [2])
check("a\xff\xf0bc", [1000])
""")
FILES = """
import os, pathlib
import numpy as np, h5py
from shepherd_data import Reader
p = pathlib.Path("rec.h5")
def rec(**series):
    with h5py.File(p, "w") as f:
        g = f.create_group("sysutil")
        n = len(next(iter(series.values())))
        g.create_dataset("time", data=np.arange(n, dtype="u8") * 10**9 + 1_700_000_000 * 10**9)
        g["time"].attrs["description"] = "time [s]"
        for k, v in series.items():
            g[k] = np.asarray(v)
            g[k].attrs["description"] = k
    r = object.__new__(Reader)
    r.file_path, r.h5file = p, h5py.File(p, "r")
    import logging
    r._logger = logging.getLogger("demo")
    return r
"""
s("S27", "C27", [(D + "reader.py",
   "        if csv_path.exists():\n", "        if csv_path.exists() and csv_path.stat().st_size > 0:\n")],
  "an existing but empty csv-file", "the existing file is overwritten", FILES + """
r = rec(cpu=[1, 2, 3])
t = pathlib.Path("rec.sysutil.csv"); t.touch()
r.save_csv(r.h5file["sysutil"])
assert t.read_bytes() == b""
t.unlink()
assert r.save_csv(r.h5file["sysutil"]) == 3 and len(t.read_text().splitlines()) == 4
""")
s("S27b", "C27", [(D + "reader.py",
   "                    values = h5_group[key][idx]\n                    if not raw:\n                        values = values * gains[key] + offsets[key]\n",
   "                    values = h5_group[key][idx]\n                    if not raw and gains[key] != 1.0:\n                        values = values * gains[key] + offsets[key]\n")],
  "a dataset with an offset but unit gain", "values are written without the conversion to SI", FILES + """
r = rec(cpu=[1, 2, 3])
r.h5file.close()
with h5py.File(p, "a") as f:
    f["sysutil"]["cpu"].attrs["gain"] = 1.0
    f["sysutil"]["cpu"].attrs["offset"] = 0.5
r.h5file = h5py.File(p, "r")
r.save_csv(r.h5file["sysutil"])
rows = pathlib.Path("rec.sysutil.csv").read_text().splitlines()[1:]
assert [float(x.split(";")[1]) for x in rows] == [1.5, 2.5, 3.5], rows
""")

EV = """
import numpy as np
from shepherd_core.data_models.experiment.observer_features import GpioEvent, PowerTracing, GpioTracing
from shepherd_core.data_models.testbed.gpio import GPIO
"""
OF = C + "data_models/experiment/observer_features.py"
s("S28", "C28", [(OF, "        if self.duration and self.duration.total_seconds() < 0:\n            raise ValueError(\"Duration can't be negative.\")\n\n        discard_all", "        if self.duration and self.duration.days < -1:\n            raise ValueError(\"Duration can't be negative.\")\n\n        discard_all")],
  "a negative duration of less than a day", "power-tracings of negative duration are accepted", EV + """
from datetime import timedelta
for s in (-1, -60, -90000, -1e-3):
    try:
        PowerTracing(duration=timedelta(seconds=s))
    except ValueError:
        continue
    raise AssertionError(s)
PowerTracing(duration=timedelta(seconds=5))
""")
s("S28b", "C28", [(C + "data_models/testbed/gpio.py", "        no_sys = (self.reg_sys is None) or (self.pin_sys is None)\n", "        no_sys = (not self.reg_sys) or (self.pin_sys is None)\n")],
  "a pin at system-register 0", "valid pins of register 0 are refused", EV + """
GPIO(id=9999, name="some_pin", reg_sys=0, pin_sys="P8_1")
GPIO(id=9999, name="some_pin", reg_sys=5, pin_sys="P8_1")
""")
s("S28c", "C28", [(C + "data_models/task/harvest.py", "        if has_time and values[\"time_start\"].tzinfo is None:\n            values[\"time_start\"] = values[\"time_start\"].astimezone()\n", "        if has_time and values[\"time_start\"].tzinfo is None:\n            values[\"time_start\"] = values[\"time_start\"].replace(microsecond=0).astimezone()\n")],
  "a naive start time with fractions of a second", "the start moves to another moment", EV + """
from datetime import datetime
from shepherd_core.data_models.task.harvest import HarvestTask
for d in (datetime(2099, 1, 1, 12, 0, 0), datetime(2099, 1, 1, 12, 0, 0, 250_000)):
    h = HarvestTask(output_path="/tmp/x", time_start=d)
    assert h.time_start.timestamp() == d.timestamp(), h.time_start
""")
META = """
import pathlib, numpy as np
from shepherd_core import Reader, Writer
"""
s("S29", "C29", [(C + "reader.py", "            return int(self.h5file[\"data\"].attrs[\"window_samples\"])\n        return 0\n", "            return int(self.h5file[\"data\"].attrs[\"window_samples\"]) & 0xFFFF\n        return 0\n")],
  "windows of more than 65535 samples", "the window size read back is another one", META + """
for k, win in enumerate((8, 1000, 100_000)):
    p = pathlib.Path(f"r{k}.h5")
    with Writer(p, mode="harvester", datatype="ivcurve", window_samples=win, verbose=False) as w:
        w.store_hostname("a")
    with Reader(p, verbose=False) as r:
        assert r.get_window_samples() == win, r.get_window_samples()
""")
s("S29b", "C29", [(C + "writer.py", "            data, default_flow_style=False, sort_keys=False\n", "            {k: v for k, v in data.items() if v}, default_flow_style=False, sort_keys=False\n")],
  "a configuration with values that are zero, false or none", "these entries get lost", META + """
cfg = {"name": "x", "wait_cycles": 0, "rising": False, "inner": {"a": 0}}
p = pathlib.Path("r.h5")
with Writer(p, mode="harvester", datatype="ivsample", verbose=False) as w:
    w.store_config(cfg)
import yaml, h5py
with h5py.File(p) as f:
    a = f.attrs.get("config") or f["data"].attrs["config"]
assert yaml.safe_load(a) == cfg, a
""")

SIM = """
import pathlib, os
import numpy as np
from shepherd_core import Reader, Writer
from shepherd_core.data_models import VirtualHarvesterConfig, VirtualSourceConfig
from shepherd_core.data_models.base.calibration import CalibrationHarvester, CalibrationEmulator
from shepherd_core.vsource import simulate_harvester, simulate_source, VirtualSourceModel
from shepherd_core.vsource.target_model import ResistiveTarget
os.chdir(os.environ["SCRATCH"])
rng = np.random.default_rng(3)
def rec(name, n, datatype="ivsample", **kw):
    p = pathlib.Path(name)
    with Writer(p, mode="harvester", datatype=datatype, cal_data=CalibrationHarvester(), verbose=False, **kw) as w:
        k = np.arange(n)
        if datatype == "ivcurve":
            v, i = 4.0 * (k % 8) / 8 + 0.1, np.maximum(0, 0.01 - 0.0015 * (k % 8)) * (1 + (k // 8) % 5)
        else:
            v, i = 2.0 + rng.random(n), 0.002 * rng.random(n)
        w.append_iv_data_si(0, v, i)
    return p
"""
s("S30", "C30", [(C + "vsource/virtual_source_simulation.py", "        i_nA = 1e9 * cal_inp.current.raw_to_si(i_inp)\n", "        i_nA = 1e9 * cal_inp.current.raw_to_si(i_inp)\n        i_out_nA = 0\n")],
  "a recording with several buffers", "current drawn by the target in the last sample of a buffer is not fed back to the source", SIM + """
p = rec("r.h5", 20_000)
loads = []
class T(ResistiveTarget):
    def step(self, voltage_uV, *, pwr_good):
        loads.append(123_456 if len(loads) % 2 else 654_321)
        return loads[-1]
seen = []
orig = VirtualSourceModel.iterate_sampling
def it(self, V_inp_uV, I_inp_nA, I_out_nA):
    seen.append(I_out_nA)
    return orig(self, V_inp_uV, I_inp_nA, I_out_nA)
VirtualSourceModel.iterate_sampling = it
simulate_source(VirtualSourceConfig(name="BQ25504"), T(1000), p)
assert len(seen) == 20_000 and seen[0] == 0 and seen[1:] == loads[:-1]
""")
s("S30b", "C30", [(C + "vsource/virtual_harvester_simulation.py", "        length = min(v_uV.size, i_nA.size)\n        for _n in range(length):", "        length = min(v_uV.size, i_nA.size)\n        length -= length % max(1, hrv_pru.window_size)\n        for _n in range(length):")],
  "a window size that does not divide the buffer size", "the last samples of each buffer skip the harvester and are taken as harvested", SIM + """
from shepherd_core.vsource.virtual_harvester_model import VirtualHarvesterModel
p = rec("r.h5", 20_000, "ivcurve", window_samples=24)
n = [0]
orig = VirtualHarvesterModel.ivcurve_sample
def it(self, _voltage_uV, _current_nA):
    n[0] += 1
    return orig(self, _voltage_uV, _current_nA)
VirtualHarvesterModel.ivcurve_sample = it
simulate_harvester(VirtualHarvesterConfig(name="mppt_opt"), p)
assert n[0] == 20_000, n
""")
s("S30c", "C30", [(C + "vsource/virtual_source_simulation.py", "            i_out_nA = target.step(int(v_uV[_n]), pwr_good=src.cnv.get_power_good())\n", "            i_out_nA = target.step(int(v_uV[_n]), pwr_good=pwr_good)\n            pwr_good = src.cnv.get_power_good()\n"),
                  (C + "vsource/virtual_source_simulation.py", "    i_out_nA = 0\n    e_out", "    i_out_nA = 0\n    pwr_good = src.cnv.get_power_good()\n    e_out")],
  "a target that depends on power-good, in the sample in which that changes", "target sees the power-good state of the sample before", SIM + """
from shepherd_core.vsource.virtual_converter_model import VirtualConverterModel
p = rec("r.h5", 20_000)
last, got = [], []
orig = VirtualConverterModel.update_states_and_output
def up(self):
    r = orig(self)
    self.power_good = len(last) % 3 == 0
    last.append(self.power_good)
    return r
VirtualConverterModel.update_states_and_output = up
class T(ResistiveTarget):
    def step(self, voltage_uV, *, pwr_good):
        got.append(pwr_good)
        return super().step(voltage_uV, pwr_good=pwr_good)
simulate_source(VirtualSourceConfig(name="BQ25504"), T(1000, controlled=True), p)
assert got == last
""")
s("S16b", "C16", [(C + "vsource/virtual_source_model.py", "        self.W_out_fWs += P_out_fW", "        self.W_out_fWs += P_out_fW if self.cnv.V_out_dac_uV > 0 else 0.0")],
  "samples with the output switched off", "leakage of a disabled output is missing in the accounted energy", """
from shepherd_core.data_models import VirtualSourceConfig
from shepherd_core.data_models.base.calibration import CalibrationEmulator
from shepherd_core.vsource import VirtualSourceModel
import itertools
for name, start in itertools.product(["BQ25504", "dio_cap"], [0, 1_000_000]):
    a = VirtualSourceModel(VirtualSourceConfig(name=name, V_intermediate_init_mV=start / 1000), CalibrationEmulator())
    want = 0.0
    orig = a.cnv.calc_out_power
    def out(raw):
        global want
        p = orig(raw)
        want += p
        return p
    a.cnv.calc_out_power = out
    for k in range(3000):
        a.iterate_sampling(2_000_000, 1_000_000 if k > 1500 else 0, 5_000)
    assert abs(a.W_out_fWs - want) < 1e-6 * max(1, want), (name, a.W_out_fWs, want)
""")
s("S18b", "C18", [(C + "data_models/content/virtual_harvester.py", "            return 2 * (1 + self.wait_cycles)", "            return 2 + self.wait_cycles")],
  "data of short-circuit current and open-circuit voltage, with wait cycles", "window is too small for both of its samples", """
from shepherd_core.data_models import EnergyDType, VirtualHarvesterConfig
for n in (0, 1, 2, 7):
    c = VirtualHarvesterConfig(name="x", algorithm="isc_voc", wait_cycles=n)
    assert c.calc_window_size(for_emu=True) == c.calc_window_size(EnergyDType.isc_voc, for_emu=True) == 2 * (1 + n)
""")
