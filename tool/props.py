"""Every property: statement, anchors, entry points of the analysis, assumptions."""

TRUSTED = [
    "rustc nightly front end: type checking, MIR construction, layout computation",
    "the analyser /verif/engine (transfer functions, joins, models of the intrinsics and of exp2/powf/powi/sqrt)",
    "the specification crate /verif/roots (reference formulas, memory maps, recording bus)",
]
ASSUME = [
    "floating-point results are compared as real-valued expressions of the inputs: rounding, overflow to infinity and NaN propagation are outside the comparison",
    "equality of float expressions is decided by value numbering over two 61-bit prime fields (error probability below 2^-50 per comparison)",
]
FLOATFREE = ASSUME[:0]

S = "mlx9064x/src/"
DRV, CALC, COM, REG, ERR, LIB, UT = (S + x for x in ("driver.rs", "calculations.rs", "common.rs", "register.rs", "error.rs", "lib.rs", "util.rs"))
M0, M1, E0, E1, HAM, A0, A1 = (S + x for x in ("mlx90640/mod.rs", "mlx90641/mod.rs", "mlx90640/eeprom.rs", "mlx90641/eeprom.rs", "mlx90641/hamming.rs", "mlx90640/address.rs", "mlx90641/address.rs"))

TECH = "whole-program abstract interpretation of MIR (gated value numbering) against a reference specification"

P = []


def prop(id, title, statement, over, text, tests, files, mech, roots, assumptions=(), technique=TECH, level="proof", note="", **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, roots=roots,
                  assumptions=list(assumptions), technique=technique, level=level, note=note, **kw))


BOTH = lambda a: [a + "_640", a + "_641"]
READY = BOTH("r_ready") + BOTH("r_pipe_ready")
PIPES = [f"r_pipe_{k}_{c}" for k in ("ready", "to", "sub", "raw") for c in ("640", "641")]
FAULTS = [f"r_faults_{k}_{c}" for k in ("ready", "to", "sub", "raw") for c in ("640", "641")]
GETS = ["r_get_" + x for x in "last_measured available overwrite subpages hold repeat selected rate resolution pattern".split()]
SETS = ["r_set_" + x for x in "overwrite subpages hold repeat selected rate resolution pattern".split()] + ["r_reset_available"]
COH0 = [f"r_coh_640_{k}" for k in range(17)]
COH1 = [f"r_coh_641_{k}" for k in range(17)]

# an operation that never ends breaks the protocol properties, too
WAIT = {"r_": ["S03"]}
LENS = [f"r_lens_{k}_{c}" for k in ("ready", "img", "to", "raw") for c in ("640", "641")]
# an image after each of the driver's operations, whatever its outcome
AGED = [f"r_aged_641_{k}" for k in range(24)] + [f"r_aged_640_{k}" for k in (0, 3, 18, 20, 22)]
AGED_MORE = [f"r_aged_640_{k}" for k in range(24) if f"r_aged_640_{k}" not in AGED]
AGED_FEW = ["r_aged_641_0", "r_aged_641_3", "r_aged_641_8", "r_aged_641_20", "r_aged_641_22"]
KEEP = [f"r_keep_{k}" for k in range(24)]
# after any number of operations of any kind
MIX1 = [f"r_mix_{k}_641" for k in ("ready", "to", "sub", "raw")]
MIX = [f"r_mix_{k}_640" for k in ("ready", "to", "sub", "raw")] + MIX1
MIXCOH0 = [f"r_mixcoh_640_{k}" for k in range(17)]
MIXCOH1 = [f"r_mixcoh_641_{k}" for k in range(17)]
CALIB = ["r_e0_scalars", "r_e0_offset", "r_e0_pixels", "r_e0_pattern", "r_e1_scalars", "r_e1_pixels"]
LONGER = [f"r_e0_longer_{k}" for k in "abcd"] + [f"r_e1_longer_{k}" for k in "ab"]
N = lambda a, k: [f"{a}{i}" for i in range(k)]

COST = {"r_aged_640_20": 40, "r_aged_640_22": 40, "r_set_rate": 15, "r_sync": 12, "r_coh_640_2": 27, "r_pipe_to_640": 40, "r_pipe_ready_640": 40, "r_pipe_sub_640": 30, "r_pipe_raw_640": 20} | {r: 35 for r in MIX[:4]} | {r: 9 for r in MIX1} | {r: 12 for r in MIXCOH1} | {r: 35 for r in MIXCOH0 + ["r_mix_clone_640", "r_mix_clone_641"]} | {"r_mix_settings": 10, "r_mix_keep_img": 10}


def cost(r):
    return COST.get(r, 10 if "640" in r else 2)


prop("B01", "Taking an image when one is ready follows the frame protocol",
     "Asking for an image only if one is ready first reads the status register once; if no new data is flagged it answers false, performs no other transfer and leaves image and ambient temperature alone. "
     "If new data is flagged it reads only camera RAM for the subpage named by that same status word, and only after the whole frame was read writes the status word back with exactly the new-data flag cleared, answering true. "
     "The other ways of taking an image read RAM only, preceded by one status read when the subpage is not given by the caller.",
     ["inputs", "fault_sequences", "configurations"],
     "every status word, every RAM content, every calibration, both cameras, both access patterns, bus faults at every transfer, after any sequence of earlier operations with any outcomes (by induction)",
     "the tests replay two recorded frames through a mock bus; the order and content of transfers for other status words, and with faults, is never observed",
     [DRV, COM], [("image taken if ready", DRV + " generate_image_if_ready"), ("frame read", COM + " read_ram")],
     READY + ["r_pipe_to_640", "r_pipe_to_641", "r_pipe_sub_641", "r_pipe_raw_641", "r_pipe_sub_640", "r_pipe_raw_640"] + AGED + MIX,
     ["at most 900 transfers per call"], also=WAIT, thorough_roots=AGED_MORE)

prop("B02", "Bus failures are reported faithfully and stop the operation",
     "Whenever a bus transfer fails, the operation in progress performs no further transfer and returns an error that carries the bus's own error value, as a read error for a failed read and as a write error for a failed write; when no transfer fails, no such error is returned. "
     "A failed read while taking an image leaves the destination image and the reported ambient temperature as they were.",
     ["fault_sequences", "inputs"],
     "a fault at any one transfer of any driver call, with any register and RAM contents and any prior state",
     "the tests have one injected failure; which transfer fails and what was read before it cannot be enumerated by examples",
     [DRV, COM, REG, ERR], [("image calls", DRV + " generate_*"), ("register access", REG + " FromI2C/ToI2C"), ("RAM reads", COM + " read_ram")],
     FAULTS + BOTH("r_ready") + GETS + SETS + ["r_sync", "r_ctor", "r_ctor_emis"] + BOTH("r_frame_fault") + BOTH("r_new") + BOTH("r_load") + AGED_FEW + MIX1, also=WAIT,
     thorough_roots=[r for r in AGED + AGED_MORE + MIX if r not in AGED_FEW + MIX1])

prop("B03", "Every transfer addresses the configured device, big endian",
     "Every bus transfer a driver performs is sent to the device address given when it was created. "
     "Reads send exactly a two-byte big-endian memory address, writes exactly a two-byte big-endian address followed by a two-byte big-endian word.",
     ["inputs", "histories"],
     "every device address, every operation of the driver, every register content",
     "the tests use one device address and a mock that shares the library's own address type",
     [DRV, REG, COM], [("register access", REG + " FromI2C/ToI2C"), ("RAM reads", COM + " read_ram")],
     GETS + SETS + ["r_sync", "r_ctor", "r_ctor_emis", "r_ready_641", "r_pipe_sub_641", "r_pipe_raw_641", "r_pipe_to_641", "r_ready_640"] + BOTH("r_frame") + BOTH("r_new") + BOTH("r_load"))

prop("B04", "Setters change their own field only, and write only when needed",
     "Every driver setting is changed by reading its register once and then, exactly when the requested value differs from the one read, writing that register back once with only the field in question changed; all other bits, reserved ones included, are written as read. "
     "Clearing the new-data flag reads the status register and writes it back with exactly that flag cleared.",
     ["inputs"],
     "every register content and every requested value of every setting, after any sequence of earlier operations with any outcomes (by induction)",
     "the tests change each setting from the default value only; other register contents and the reserved bits are never checked",
     [DRV, REG], [("setters", DRV + " set_*"), ("field accessors", REG + " StatusRegister/ControlRegister")],
     SETS, also=WAIT)

prop("B05", "Getters read their register once and decode the right field",
     "Every driver query performs exactly one transfer, a read of the register that holds the field, and returns exactly the meaning of that field in the word just read.",
     ["inputs"],
     "every register content, every query, after any sequence of earlier operations with any outcomes (by induction)",
     "the tests read the reset values only",
     [DRV, REG], [("getters", DRV), ("field accessors", REG + " StatusRegister/ControlRegister")],
     GETS, also=WAIT)

prop("B06", "Images use the settings the camera is known to have",
     "An image is always computed with the access pattern and the ADC resolution of the control word that the driver last successfully read from or wrote to the camera, whatever calls were made and failed in between. "
     "A failed control register write leaves the settings in use unchanged.",
     ["histories", "fault_sequences", "inputs"],
     "any history of driver calls with any outcome, by induction over single calls from an arbitrary cached state; every control word",
     "the tests never take an image after changing the settings, nor after a failed change",
     [DRV], [("cached settings", DRV + " update_control_register, set_control_register")],
     COH0 + COH1 + AGED + MIXCOH1 + ["r_mixcoh_640_3"],
     ["between an arbitrary earlier history and the operation judged the control register is successfully read once (or the operations before it are a single kind, repeated)"],
     also={"r_aged_": ["T05", "T06"]}, thorough_roots=AGED_MORE + [r for r in MIXCOH0 if r != "r_mixcoh_640_3"])

prop("B07", "Synchronising waits for a measurement requested by the call",
     "Synchronising reads the status register, writes it back with new-data cleared, overwrite enabled and measurement start set and all other bits kept, and then polls the status register until new data is flagged. "
     "It returns success exactly when a poll after that request flags new data, and an error only when a transfer fails.",
     ["inputs", "fault_sequences", "schedules"],
     "every status word, every fault position, any number of unsuccessful polls (by induction over the polls)",
     "the mock camera always has data ready",
     [DRV], [("synchronize", DRV + " synchronize")],
     ["r_sync"], also=WAIT)

prop("B08", "A new driver starts from the camera's own settings",
     "Creating a driver from calibration data reads the control register once and nothing else, and fails exactly when that read fails. "
     "A fresh driver uses the camera's own emissivity or, if it has none, 1; it has neither an ambient temperature nor a reflected temperature, and reports the camera's image dimensions. "
     "Its first image uses the access pattern and the ADC resolution of the control word read.",
     ["inputs", "fault_sequences"],
     "every control word, every calibration, faults",
     "the tests create drivers from the recorded camera only",
     [DRV], [("construction", DRV + " new, new_with_calibration")],
     ["r_ctor", "r_ctor_emis"] + BOTH("r_first") + BOTH("r_new") + BOTH("r_load"))

prop("B09", "Emissivity and reflected temperature are pure settings",
     "The effective emissivity is the last override since the default was last selected, and otherwise the camera's own emissivity or 1; the reflected temperature is the last one set. "
     "Changing or reading these settings performs no transfer and does not touch the ambient temperature.",
     ["histories", "inputs"],
     "every sequence of four setting changes with arbitrary values, before and after an image; after any sequence of other operations",
     "the tests set each once",
     [DRV], [("settings", DRV + " override_emissivity, use_default_emissivity, set_reflected_temperature")],
     ["r_settings", "r_mix_settings"])

prop("B11", "Settings and the ambient temperature survive other operations",
     "Queries, register settings, synchronising and taking images leave the emissivity and the reflected temperature in effect unchanged, whether they succeed or fail. "
     "The reported ambient temperature changes only when an image is taken: every other operation, and any image whose data could not be read, leaves that of the last image, or none before the first.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of operations of the driver with every outcome (by induction), every combination of settings, before and after an image",
     "the tests never look at the settings again after another operation",
     [DRV], [("driver state", DRV + " CameraDriver"), ("settings", DRV + " override_emissivity, set_reflected_temperature"), ("ambient temperature", DRV + " generate_image_*")],
     KEEP + ["r_mix_keep", "r_mix_keep_img"])

prop("B12", "A cloned driver is a driver of its own",
     "A clone of a driver has the original's emissivity, reflected temperature, ambient temperature and camera settings, and uses the same bus and address; "
     "from then on neither is affected by settings, images or register changes made through the other.",
     ["histories", "inputs"],
     "every combination of settings, before and after an image, every control word, either of the two used on",
     "the tests never clone a driver",
     [DRV], [("driver state", DRV + " CameraDriver")],
     BOTH("r_clone") + ["r_mix_clone_641"], also=WAIT, thorough_roots=["r_mix_clone_640"])

prop("T05", "Pixels outside the read subpage are never touched",
     "Taking an image of one subpage writes exactly the pixels of that subpage under the access pattern in use and leaves every other element of the destination as it was.",
     ["inputs", "configurations"],
     "every RAM content, calibration, old image, both subpages, both access patterns, both cameras",
     "the tests start from zeroed images and check a handful of pixels",
     [DRV, CALC, M0, M1], [("masking", CALC + " raw_pixels_to_temperatures, raw_pixels_to_ir_data"), ("membership", M0 + " pixels_in_subpage")],
     PIPES + BOTH("r_ready") + LENS + AGED + MIX, thorough_roots=AGED_MORE)

prop("T06", "An image equals the specified calculation, pixel by pixel",
     "Each pixel of an image equals the datasheet calculation applied to that pixel's own RAM word, the subpage's own auxiliary words, the calibration values the datasheet restores from the EEPROM for the same pixel and subpage, the emissivity and reflected temperature in effect, and the resolution and access pattern in use; a raw image equals the compensated infrared value of the same calculation. "
     "The ambient temperature reported afterwards is that frame's.",
     ["inputs", "configurations"],
     "every RAM content and calibration (with or without gradient compensation and emissivity), all settings, both subpages, both access patterns, both cameras, all four ways of taking an image, after any sequence of earlier operations with any outcomes (by induction)",
     "the tests compare a few pixels of two datasheet examples",
     [DRV, CALC, COM, M0, M1], [("pipeline", DRV + " process_frame and callers"), ("formulas", CALC)],
     PIPES + BOTH("r_ready") + LENS + AGED + MIX + CALIB, ["emissivity is not exactly 1 unless it is the default", "restored calibration values under the assumptions of E01, E02, E04 and E05"],
     also={"r_e": ["E01", "E02", "E04", "E05", "E09"]}, thorough_roots=AGED_MORE)

# ---------------------------------------------------------------- registers
prop("R01", "Register fields occupy their documented bits and nothing else is lost",
     "Decoding a status, control or I2C configuration word yields each field's documented bits; changing a field and encoding changes those bits only; decoding then encoding gives back the same word, reserved bits included.",
     ["inputs"], "every 16-bit word of the three registers and every value of every field",
     "the tests try the reset values and single fields set from them",
     [REG, UT], [("register types", REG), ("bit fields", REG + " From<u16>, Into<u16>")],
     ["r_reg_status", "r_reg_control", "r_reg_i2c"])

prop("R02", "Register values convert faithfully between enums and numbers",
     "Each frame rate, resolution, subpage and access pattern converts to its documented number and back to itself; a number that names none is refused as invalid data rather than mapped to some other value.",
     ["inputs"], "every enum value, every 8-bit number, every real number for frame rates",
     "the tests convert a few values",
     [REG, COM], [("conversions", REG + " FrameRate, Resolution, AccessPattern"), ("subpages", COM + " Subpage")],
     ["r_enum_u8", "r_enum_f32", "r_enum_back"])

prop("R03", "Registers are equal exactly when their documented fields are",
     "Two register values compare equal exactly when all documented fields agree; reserved bits do not matter.",
     ["inputs"], "every pair of words of the three registers", "the tests compare a handful of values",
     [REG], [("equality", REG + " PartialEq of the register types")], ["r_reg_eq_status", "r_reg_eq_control", "r_reg_eq_i2c"])

prop("R04", "Default registers are the documented reset values",
     "The default status, control and I2C configuration registers have the documented default fields and encode to the documented reset words.",
     ["configurations"], "all fields of the three registers", "the tests compare two of the three through the library's own encoder",
     [REG], [("defaults", REG + " Default")], ["r_reg_default"])

prop("R05", "Registers are read and written through the bus as documented",
     "Reading a register is one two-byte read at its own address and yields the big-endian word sent; writing is one write of the address and the register's word, big endian; a bus failure is returned as the matching read or write error.",
     ["inputs", "fault_sequences"], "every device address, every register word, every fault", "the tests use a single value per register",
     [REG], [("register access", REG + " FromI2C, ToI2C")], ["r_bus_status", "r_bus_control", "r_bus_i2c"])

# ---------------------------------------------------------------- cameras
prop("C01", "Each pixel belongs to the subpages its access pattern prescribes",
     "For each camera and access pattern, the membership sequence of a subpage has exactly one decision per pixel, each as the pattern prescribes; on the larger camera the two subpages split the pixels, on the smaller every pixel is in every subpage.",
     ["configurations", "inputs"], "both cameras, both subpages, both patterns, every pixel", "the tests check parts of the larger camera's patterns",
     [M0, M1, COM, UT], [("membership", M0 + " pixels_in_subpage"), ("membership", M1 + " pixels_in_subpage"), ("chess iterator", UT)],
     BOTH("r_members"))

prop("C02", "A frame is read to its own place and from RAM only",
     "Reading a frame stores the big-endian RAM word of every pixel of the subpage at that pixel's place in the frame buffer and transfers camera RAM only, never more than the buffer holds.",
     ["inputs", "configurations", "fault_sequences"], "every RAM content, both subpages, both patterns, both cameras, every fault position",
     "the tests use recorded frames, in which misplaced words are indistinguishable from noise",
     [COM, M0, M1], [("frame read", COM + " read_ram"), ("frame ranges", M0 + " pixel_ranges"), ("frame ranges", M1 + " pixel_ranges")],
     BOTH("r_frame") + BOTH("r_frame_fault"))

prop("C03", "Auxiliary data of a frame come from their documented addresses",
     "The auxiliary values of a frame are the signed big-endian words at their documented RAM addresses, with the compensation pixel belonging to the subpage that was read; a failed read is returned as an error carrying the bus's error.",
     ["inputs", "fault_sequences"], "every RAM content, both subpages, both cameras, every fault", "the tests use two recorded frames",
     [COM, A0, A1], [("auxiliary data", COM + " RamData"), ("addresses", A0 + " RamAddress"), ("addresses", A1 + " RamAddress")],
     BOTH("r_aux") + BOTH("r_frame") + BOTH("r_frame_fault"))

prop("C04", "Memory map and constants are the documented ones",
     "EEPROM and RAM ranges, image dimensions, the basic temperature range, the resolution correction and the self-heating allowance of each camera are the documented ones; addresses convert to and from their numbers faithfully, only documented numbers are recognised as named addresses, and pixel addresses follow the pixel's index.",
     ["configurations", "inputs"], "both cameras, every 16-bit address, every resolution pair, every pixel", "the tests check a few of the addresses",
     [COM, M0, M1, A0, A1], [("camera description", M0 + " MelexisCamera"), ("camera description", M1 + " MelexisCamera"), ("addresses", COM + " Address")],
     BOTH("r_consts") + ["r_address"] + BOTH("r_ram"))

# ---------------------------------------------------------------- formulas
prop("T01", "Supply voltage, ambient temperature and gain follow the documented formulas",
     "The supply voltage change, the supply voltage, the PTAT voltage, the ambient temperature, the gain and the emissivity used for a frame equal the documented expressions of the RAM words and calibration values.",
     ["inputs"], "every RAM word and calibration value (divisors not zero), every resolution pair", "the tests reproduce the datasheet's worked example",
     [CALC], [("common calculation", CALC + " CommonIrData, delta_v, v_dd, v_ptat_art, ambient_temperature")], ["r_calc_frame", "r_calc_to"])

prop("T02", "The compensated infrared value of a pixel follows the documented formula",
     "Gain, offset, temperature and voltage slope, access pattern and emissivity compensation of a pixel equal the documented expression, with and without an access pattern term.",
     ["inputs"], "every raw value and calibration value", "the tests reproduce one pixel of the datasheet",
     [CALC], [("pixel compensation", CALC + " per_pixel_v_ir")], ["r_calc_ir"])

prop("T03", "The object temperature of a pixel follows the documented formulas",
     "The reflected radiation, the correction of the sensitivity by the ambient temperature, and the object temperature of a pixel equal the documented expressions; at an emissivity of one nothing is reflected.",
     ["inputs"], "every real value of the arguments", "the tests cover one pixel at one set of values",
     [CALC], [("object temperature", CALC + " per_pixel_temperature, t_ar, sensitivity_correction")], ["r_calc_frame", "r_calc_to"])

prop("T04", "The stepwise calculation agrees with the combined one",
     "Computing infrared values first and temperatures from them afterwards gives the same ambient temperature and the same pixels as the combined calculation, touching only the selected pixels, for slices of any length.",
     ["inputs", "configurations"], "every calibration and RAM content, both cameras, both subpages and patterns, short and long slices",
     "the tests never compare the two ways, nor short slices",
     [CALC], [("combined", CALC + " raw_pixels_to_temperatures"), ("steps", CALC + " raw_pixels_to_ir_data, ir_data_to_temperatures")],
     BOTH("r_steps") + BOTH("r_steps_short"))

# ---------------------------------------------------------------- calibration
prop("E01", "MLX90640 camera-wide calibration values are restored as documented",
     "Every camera-wide MLX90640 calibration value (supply voltage, ambient sensor, gain, resolution, gradient, compensation pixels, temperature ranges) equals the documented function of the EEPROM words, sign extension and scaling included.",
     ["inputs"], "every content of the EEPROM words before the pixels (gradient compensation present or absent)", "the tests load two dumps, with particular signs and scales",
     [E0, UT], [("loader", E0 + " from_data")], ["r_e0_scalars"])

prop("E02", "MLX90640 pixel calibration values are restored as documented, or loading fails",
     "The offset, sensitivity, temperature slope, voltage slope and pattern compensation of every MLX90640 pixel equal the documented function of its own EEPROM word, its row's and column's coefficients and the scales, in pixel order and with exactly one entry per pixel; a dump is refused exactly when an offset does not fit its type.",
     ["inputs"], "every content of the EEPROM in which no pixel's word is zero (in sixteen cases: each forces one bit of every word, a different one per pixel)",
     "the tests check a few pixels of two dumps",
     [E0], [("pixel data", E0 + " generate_pixel_offsets and the other pixel generators")],
     ["r_e0_offset", "r_e0_refuse_own", "r_e0_refuse_row", "r_e0_refuse_col", "r_e0_pixels", "r_e0_failed", "r_e0_pattern"]
     + N("r_e0_offset_", 16)[1:] + N("r_e0_pixels_", 16)[1:] + [f"r_e0_refuse_{a}_{i}" for a in ("own", "row", "col") for i in (1, 2)],
     ["the pixels' average sensitivity is below 0x8000", "offsets that do not fit are decided for one pixel at a time"])

prop("E03", "Defective pixels are listed",
     "On the MLX90640 a pixel has failed exactly when its EEPROM word is zero and is an outlier exactly when the lowest bit is set; on both cameras the list of flagged pixels holds exactly those that failed or are outliers, in order, and is empty exactly when no pixel is flagged.",
     ["inputs"], "every pixel, every pattern of failed pixels and outliers (one arbitrary bit per word, each of sixteen)",
     "the dumps of the tests have no failed pixels",
     [E0, E1, COM], [("flags", E0 + " FlaggedPixels"), ("flags", E1 + " FlaggedPixels"), ("lists", COM + " FlaggedPixels")],
     ["r_e0_pixels", "r_e0_failed"] + BOTH("r_flags") + N("r_e0_pixels_", 16)[1:] + N("r_e0_failed_", 16)[1:])

prop("E04", "MLX90641 camera-wide calibration values are restored as documented",
     "Every camera-wide MLX90641 calibration value equals the documented function of the EEPROM words' data bits, split words, sign extension and scaling included.",
     ["inputs"], "every data content of the EEPROM words before the pixels", "the test dump has particular signs and scales",
     [E1], [("loader", E1 + " from_data")], ["r_e1_scalars"], ["the low word of a split value holds five data bits"])

prop("E05", "MLX90641 pixel calibration values are restored as documented, or loading fails",
     "The offsets, sensitivity, temperature and voltage slopes of every MLX90641 pixel equal the documented function of its own words and the scales; a pixel has failed exactly when all its data is zero; a dump is refused exactly when an offset does not fit its type, as invalid data.",
     ["inputs"], "every data content of the pixel words and scales in which no pixel's data is all zero; every pattern of pixels with data in one bit", "the tests check a few pixels of one dump",
     [E1], [("pixel data", E1 + " from_data")],
     ["r_e1_pixels"] + N("r_e1_failed_", 44) + N("r_e1_refuse_", 4),
     ["offset scales above fifteen are decided for one pixel at a time"])

prop("E06", "Wrong bits in an MLX90641 dump are corrected or reported",
     "An MLX90641 dump with one wrong bit in any or all of its protected words loads exactly the values of the intact dump; a dump with a word in which two bits are wrong is refused with a checksum error naming that word.",
     ["inputs", "fault_sequences"], "every data content; one wrong bit in every protected word at once, in every position; two wrong bits in each protected word",
     "the tests decode three words",
     [E1, HAM], [("loader", E1 + " from_data"), ("decoder", HAM + " validate_checksum")],
     [f"r_e1_flip_{a}{k}" for a in "ab" for k in range(16)] + N("r_e1_doubles_", 8),
     ["the two wrong bits are at positions that vary with the word; all pairs are covered by E07"],
     also={"r_e1_flip_": ["E04", "E05", "E09"]})

prop("E07", "The Hamming code corrects one wrong bit and detects two",
     "Encoding an eleven bit value keeps it and adds the documented parity bits, and wider values are refused; a word at distance at most one from a code word decodes to that code word's value; any other word, in particular one with two wrong bits, is refused with an error naming it.",
     ["inputs"], "every 11-bit value, every wrong bit, every pair of wrong bits, every 16-bit word", "the tests try a few words",
     [HAM], [("code", HAM + " add_checksum, validate_checksum")], ["r_ham_add", "r_ham_one", "r_ham_two", "r_ham_any"])

prop("E08", "Calibration dumps of any length load or are refused",
     "A dump that is too short is refused with an error and without panicking; one that is long enough loads, and what follows the calibration memory in it makes no difference. Loading from the camera reads the whole calibration memory and nothing else, and yields what loading that content yields.",
     ["inputs", "fault_sequences"], "every length, both cameras; faults at every read", "the tests load complete dumps only",
     [E0, E1, COM], [("loader", E0 + " from_data"), ("loader", E1 + " from_data"), ("loading from the camera", COM + " from_i2c")],
     ["r_e0_length", "r_e1_length"] + BOTH("r_load") + LONGER, also={"r_e0_longer": ["E01", "E02", "E03", "E09"], "r_e1_longer": ["E04", "E05", "E09"]})

prop("E09", "Sensitivity corrections chain across temperature ranges",
     "The sensitivity correction of each temperature range equals the documented product over the ranges between it and the basic range, for both cameras.",
     ["inputs"], "every content of the temperature range words", "the tests' dumps have one set of ranges",
     [E0, E1, CALC], [("corrections", E0 + " alpha_correction"), ("corrections", E1 + " alpha_correction")], ["r_e0_scalars", "r_e1_scalars"])

# ---------------------------------------------------------------- whole library
prop("S01", "No camera data makes the library panic",
     "Whatever the camera's registers, RAM and EEPROM hold, whatever transfers fail and however long the given buffers are, no operation of the library panics: no arithmetic overflow, out-of-range index or shift, failed conversion or assertion.",
     ["inputs", "fault_sequences"], "every register word, RAM and EEPROM content, buffer length and fault covered by the entry points of the other properties",
     "overflows need particular combinations of calibration and RAM words",
     [DRV, CALC, COM, REG, M0, M1, E0, E1, HAM, UT], [("whole library", S)],
     GETS + SETS + ["r_sync", "r_ctor", "r_ctor_emis", "r_settings"] + READY[:2] + BOTH("r_pipe_to") + BOTH("r_pipe_raw") + BOTH("r_frame") + BOTH("r_frame_fault") + BOTH("r_load") + BOTH("r_new")
     + LENS + AGED + KEEP[18:] + MIX[:1] + MIX1 + ["r_mix_keep_img", "r_mixcoh_641_3"] + LONGER + ["r_calc_frame", "r_calc_ir", "r_calc_to"] + BOTH("r_steps_short")
     + ["r_e0_scalars", "r_e0_offset", "r_e0_refuse_own", "r_e0_refuse_row", "r_e0_refuse_col", "r_e0_pixels", "r_e0_failed", "r_e0_pattern", "r_e0_length"]
     + ["r_e1_scalars", "r_e1_pixels", "r_e1_failed_0", "r_e1_length", "r_e1_doubles_q0"] + N("r_e1_refuse_", 4) + BOTH("r_flags")
     + ["r_ham_add", "r_ham_any", "r_reg_status", "r_reg_control", "r_reg_i2c", "r_enum_u8", "r_enum_f32", "r_enum_back", "r_address"] + BOTH("r_ram") + BOTH("r_consts") + BOTH("r_members"),
     ["arithmetic is checked for overflow as in debug builds"], thorough_roots=AGED_MORE + KEEP[:18])

prop("S02", "No standard library, no allocator and no unsafe code are needed",
     "With default features off and the libm feature on, the library and everything it depends on build against core alone, also for 32-bit processors without an operating system; the library has no unsafe code of its own.",
     ["configurations"], "the no_std configuration, all code, on the host and for two bare 32-bit targets", "the tests are always run with the standard library",
     [LIB, S], [("crate attributes", LIB)], [], technique="crate graph and lint query over the type-checked library", structural=["nostd"], libm=False)

prop("S03", "Only synchronising waits for the camera",
     "Every operation other than synchronising ends after a bounded number of transfers, whatever the camera and the bus answer; none repeats transfers until an answer changes.",
     ["inputs", "fault_sequences", "schedules"], "every register word and RAM content, faults at every transfer, every driver operation, both cameras",
     "the mock camera always answers the same and never fails",
     [DRV, COM, CALC], [("driver operations", DRV), ("frame read", COM + " read_ram")],
     GETS + SETS + ["r_ctor", "r_ctor_emis"] + FAULTS + BOTH("r_ready") + BOTH("r_frame_fault") + BOTH("r_new") + BOTH("r_load"),
     ["more than 12 register accesses, 6 failed or 900 transfers in one call count as unbounded"])

prop("S04", "The types rule out misuse",
     "Drivers, calibration data, registers and errors can be moved and shared between threads whenever the bus can; registers and settings are plain values; errors can be shown whatever the bus. "
     "Only the library's two cameras exist, each with its own calibration; register words cannot be forged; a driver owns its bus, and taking images or changing settings needs exclusive access.",
     ["configurations"], "every program using the documented types",
     "a test that does not compile cannot be written in the test suite",
     [DRV, COM, REG, ERR, UT], [("driver", DRV + " CameraDriver"), ("sealed camera trait", COM + " MelexisCamera"), ("registers", REG), ("errors", ERR)],
     ["@types"], technique="type-level compile-pass and compile-fail witnesses, and a query over the type-checked library's items", structural=["witness"])

prop("R06", "Settings, registers and addresses are ordered consistently",
     "Frame rates are ordered by speed, resolutions by bits, subpages, access patterns and addresses by number; the order of I2C configuration registers is total and agrees with their equality.",
     ["inputs"], "every pair of settings, every pair of addresses, every three register words", "the tests compare nothing by order",
     [REG, COM], [("register order", REG + " Ord for I2cRegister"), ("derived orders", REG), ("addresses", COM + " Address")],
     ["r_order", "r_order_i2c", "r_order_address"])

prop("B10", "Errors name their cause",
     "The source of a bus error is the bus's own error and the source of a library error is that error; turning a library error into a driver error keeps it.",
     ["inputs", "fault_sequences"], "every kind of error, every message and checksum word", "the tests inspect no error's source",
     [ERR], [("sources", ERR + " source"), ("conversion", ERR + " From<LibraryError>")],
     ["r_err_source", "r_err_from"], libm=False)

BY_ID = {p["id"]: p for p in P}

def na(id, title, statement, over, text, tests, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, reason=reason))


NOT_APPLICABLE = []

na("X01", "Single precision keeps temperatures accurate",
   "The temperature computed in single precision differs from the datasheet's real-valued formula by less than the camera's own noise, for all calibration and RAM contents of working cameras.",
   ["inputs"], "every RAM word and calibration of a working camera", "two worked examples are compared to two decimals",
   [CALC, E0, E1], [("formulas", CALC)],
   "rounding accumulates over fourth roots and differences of large numbers whose sizes depend on the calibration; bounding it needs ranges of real devices' calibration values that the source does not contain, "
   "and interval analysis over all EEPROM words gives infinite bounds (a zero gain word alone makes the result infinite). T01 to T06 decide the formulas as real-valued expressions.")

na("X02", "Synchronising eventually succeeds on a working camera",
   "With a camera that keeps measuring, synchronising returns after finitely many polls.",
   ["schedules"], "every timing of camera and host", "the mock camera always has data ready",
   [DRV], [("synchronize", DRV + " synchronize")],
   "how many polls are needed depends on the camera's timing, which the source does not bound; B07 decides that the first poll flagging new data ends the wait")

na("X03", "An image never mixes two measurements",
   "All words read for one image belong to the same measurement of the camera.",
   ["schedules"], "every timing of the camera's updates relative to the transfers", "the mock camera's RAM never changes during a read",
   [DRV, COM], [("frame read", COM + " read_ram")],
   "the camera overwrites its RAM on its own clock; whether an update falls between two reads depends on frame rate, bus speed and host delays, none of which the source determines. B01 decides the order of transfers the datasheet asks for")


def explain(p):
    return (
        "The library's MIR (generics instantiated, dependencies included) is interpreted abstractly from the listed entry points: every input is an unknown bit, "
        "integer or real; states are joined at merge points; obligations carrying this property's id are decided by value numbering. Rule: " + p["statement"]
    )
