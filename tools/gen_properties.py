#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
M = "mlx9064x/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[M + f for f in files],
                     mechanism=[dict(name=m, where=M + files[0]) for m in mech])))

prop("C01", "Status and control words: each field owns exactly its documented bits",
 "For every 16-bit value of the status register (0x8000) and the control register (0x800D), each getter reports the documented bits and nothing else, and the value round-trips through its big-endian bytes unchanged. Each setter changes exactly the bits of its own field to the encoding of the new value and leaves every other bit, reserved ones included, as it was. Two registers compare equal exactly when all their documented fields are equal, and the documented power-on defaults are 0x1901 (MLX90640) and 0x0901 (MLX90641).",
 ["inputs"], "all 65536 words of each register x every setter x every value of the field",
 "Unit tests probe a handful of words per field; cross-field damage only shows on particular bit combinations of the other fields.",
 ["register.rs"], ["StatusRegister/ControlRegister masks, getters and setters", "From<&[u8]> / Into<[u8;2]>", "PartialEq"])

prop("C02", "Driver setters are minimal read-modify-writes; getters report live fields",
 "Each register getter of the driver returns the field value held by the camera's register at a read made during that call, and never writes. Each setter reads the register during the call and, if the field already has the requested value, writes nothing; otherwise it writes the register exactly once with the value it just read, changed only in that field. Clearing the data-available flag likewise changes only that flag.",
 ["histories", "inputs", "schedules"], "any register contents, any sequence of driver calls, with the camera or another bus master changing the registers at any point between transactions",
 "Tests run setters once from a default register; a stale copy, a dropped reserved bit or a write that also acknowledges data appears only for other contents or when the register changed since the last access.",
 ["driver.rs", "register.rs"], ["set_register_field! macro", "status_register/control_register", "reset_data_available"])

prop("C03", "Images use the camera configuration the driver last exchanged successfully",
 "Every image is generated with the access pattern and the ADC-resolution correction, 2^(calibrated resolution - current resolution), given by the most recent control-register value that was successfully read from or written to the camera through the driver. A failed transfer of the control register never changes them. This also holds when the configuration was changed behind the driver's back and is then observed by any later control-register access.",
 ["histories", "fault_sequences", "schedules"], "any sequence of configuration calls, out-of-band register changes, bus failures at any transfer, and image calls; all 16 pairs of resolutions",
 "Tests never change the configuration and then generate an image, and never fail a transfer; the cache is only wrong after particular multi-step histories.",
 ["driver.rs", "mlx90640/mod.rs", "mlx90641/mod.rs"], ["update_control_register", "set_control_register", "control_register", "resolution_correction"])

prop("C04", "An image call writes exactly the pixels of its subpage",
 "Generating an image (or raw IR image) for a subpage writes every pixel of the caller's buffer that belongs to that subpage and leaves every other element untouched. On the MLX90640 the two subpages of an access pattern partition the 24x32 image: chess puts a pixel in subpage (row+column) mod 2, interleave in subpage row mod 2. On the MLX90641 each subpage covers all 12x16 pixels whatever the access pattern.",
 ["configurations", "histories", "inputs"], "both cameras x both access patterns x both subpages x all image entry points x buffers shorter or longer than the image",
 "Existing tests examine the pixel iterators for a few rows and one full frame; misplaced or extra pixels in another pattern/subpage/entry point pass them.",
 ["driver.rs", "calculations.rs", "mlx90640/mod.rs", "mlx90641/mod.rs"], ["pixels_in_subpage", "valid_pixels filter in raw_pixels_to_*", "raw_ir_to_temperatures"])

prop("C05", "Every image pixel comes from its own RAM word, read during that call",
 "The value an image call writes for pixel i depends on the RAM word of that pixel in the image's subpage and on the frame words V_BE, PTAT, VDD, gain and that subpage's compensation pixel, as they were read from the camera during that very call, and on no other pixel's word, no other subpage's words and no data left from earlier calls. The subpage is the requested one or, when none is given, the one in the status register as read in that call. Pixel i is at RAM word 0x400+i on the MLX90640 and at 0x400+64*(i div 32)+32*subpage+(i mod 32) on the MLX90641.",
 ["schedules", "histories", "inputs"], "any RAM contents and any point at which the camera delivers a new frame between the transactions of a call",
 "Tests use one or two fixed frames, so stale buffers, swapped subpage banks or a wrong compensation pixel address give plausible results.",
 ["common.rs", "driver.rs", "calculations.rs", "mlx90640/mod.rs", "mlx90641/mod.rs", "mlx90640/address.rs", "mlx90641/address.rs"], ["read_ram", "RamData::from_i2c", "Mlx90640Pixels / SubpageInterleave", "pixel_buffer reuse"])

prop("C06", "Image-if-ready: reports new data truthfully, acknowledges it last and once",
 "The call returns true exactly when the new-data flag was set in the status register it read; it then has generated the image of the subpage that register named, and acknowledges by one status write that clears only the new-data flag, after all frame data has been read. If the flag was clear it returns false, writes nothing to the camera and leaves the buffer and the ambient temperature untouched. If any transfer before the acknowledgement fails, the frame stays unacknowledged; the image calls that do not check for new data never write to the camera at all.",
 ["schedules", "fault_sequences", "histories"], "every status register value, a camera update or a bus failure at any transaction of the call",
 "Tests cover one ready and one not-ready call on a mock that never changes during a call and never fails.",
 ["driver.rs"], ["generate_image_if_ready", "generate_image_to", "reset_new_data"])

prop("C07", "Bus failures are reported faithfully and leave no trace",
 "If a bus transfer fails during any driver call (construction included), the call returns an error that carries the bus's own error value in the variant for a read or a write respectively, and it performs no further write. If the failed transfer is a read, the caller's buffer, the ambient temperature and all session settings are as before the call. The driver stays usable: later calls behave as if the failed call had ended at the failed transfer.",
 ["fault_sequences", "histories"], "a failure at any transfer of any call, repeated failures, followed by any further calls",
 "No existing test injects a bus failure.",
 ["driver.rs", "common.rs", "register.rs", "calculations.rs", "error.rs"], ["map_err(Error::I2cWriteReadError / I2cWriteError)", "read_ram", "`?` ordering in driver.rs"])

prop("C08", "Synchronize requests a measurement and returns only on fresh data",
 "Synchronizing issues one status write that clears the new-data flag, enables overwriting and starts a measurement, leaving the other bits as read, and then returns success only after a later read shows the new-data flag set; it does not touch that flag again and does not read or change anything but the status register. It returns as soon as a read shows new data, and therefore always terminates if the camera eventually delivers a frame. Data that was already pending when it was called never satisfies it.",
 ["schedules", "histories", "fault_sequences"], "every initial status and control value, a frame arriving before, during or any number of polls after the request, or a failure of any transfer",
 "The function has no test; its correctness is about orderings of camera updates and register accesses.",
 ["driver.rs"], ["synchronize"])

prop("C09", "Session settings: emissivity, reflected and ambient temperature",
 "The effective emissivity is the last override, or else the calibration's stored emissivity (1 if the camera stores none), and images use the effective emissivity and the reflected temperature in force at the call (by default ambient temperature minus the camera's self-heating: 8 for the MLX90640, 5 for the MLX90641). The reported ambient temperature is none until an image has been generated and afterwards the value computed from the frame data of the latest generated image. No other call changes any of the three.",
 ["histories", "fault_sequences"], "any interleaving of setting changes, register calls, image calls and failing calls on both cameras",
 "Tests set each value once and read it back; whether images honour it, and whether other calls disturb it, is a property of histories.",
 ["driver.rs", "calculations.rs"], ["override_emissivity/use_default_emissivity", "set_reflected_temperature", "ambient_temperature field updates"])

prop("C10", "EEPROM Hamming code corrects every single and detects every double error",
 "Checksumming any 11-bit value yields a 16-bit word whose low 11 bits are that value, and any value wider than 11 bits is refused. Validating any 16-bit word returns the data of the unique valid word at Hamming distance at most one if there is one, and otherwise the checksum error carrying the received word; valid words differ pairwise in at least four bits.",
 ["inputs"], "all 65536 words for both functions; all pairs of codewords",
 "Tests check the datasheet's words and a few flips of them, not every word and every error position.",
 ["mlx90641/hamming.rs"], ["add_checksum", "validate_checksum", "PARITY_MASKS"])

prop("C11", "MLX90640 EEPROM: every scalar constant decodes as documented",
 "For every full-length EEPROM image, each camera-wide calibration constant (supply voltage, PTAT, gain, resolution, sensitivity slopes, corner temperatures, range corrections, gradient coefficient, and the compensation pixels' offset, sensitivity, K_Ta, K_V and interleave correction) equals the documented function of its EEPROM bit fields: sign-extended, unsigned or scaled as the datasheet says. No constant depends on any bits outside its documented fields.",
 ["inputs"], "all EEPROM contents: every value of every field in combination with arbitrary other words",
 "Tests decode two EEPROM dumps; a wrong sign extension, scale or mask is invisible when the field's value in those dumps is small, positive or a multiple of four.",
 ["mlx90640/eeprom.rs", "common.rs", "util.rs"], ["Mlx90640Calibration::from_data", "get_temperature_range_data", "get_access_pattern_corrections", "alpha_correction_coefficients"])

prop("C12", "MLX90640 EEPROM: every per-pixel constant and flag decodes as documented",
 "For every full-length EEPROM image and every pixel whose word is not zero, offset and sensitivity equal the average plus the scaled row, column and pixel remainders (sensitivity divided by its scale), K_Ta and K_V follow the four row/column-parity groups plus the scaled remainder, and the interleave compensation follows the documented row pattern; an image whose offset cannot be represented is refused with an error. A pixel is flagged failed exactly when its word is zero and outlying exactly when that word's lowest bit is set. Pixels are in row-major order and are the same for both subpages.",
 ["inputs"], "all EEPROM contents and all 768 pixels, including extreme averages, scales and remainders",
 "Tests compare two dumps, where row/column/parity mix-ups and overflow can hide behind equal or small values.",
 ["mlx90640/eeprom.rs"], ["calculate_bulk_pixel_calibration", "repeat_chessboard / ChessboardIter", "PixelAccessPatternCompensation", "per-pixel loop in from_data"])

prop("C13", "MLX90641 EEPROM: every constant decodes as documented",
 "For every full-length EEPROM image of valid codewords, each camera-wide and per-pixel constant (including per-subpage offsets, row-scaled sensitivities and the stored emissivity) equals the documented function of its 11-bit data fields, with 16-bit values assembled from their two words. A pixel is flagged failed (and an outlier: this model does not tell the two apart) exactly when its two offsets, sensitivity, K_Ta and K_V data are all zero. An image whose offsets cannot be represented in 16 bits is refused with an error rather than decoded wrongly.",
 ["inputs"], "all EEPROM contents built from valid codewords (values split over two words having at most 5 bits in the low word), all 192 pixels",
 "Tests decode one dump; a field that is positive, small or zero there never shows a wrong sign, width or scale.",
 ["mlx90641/eeprom.rs", "mlx90641/address.rs", "util.rs"], ["Mlx90641Calibration::from_data", "PerPixelCalibration::from_data", "get_combined_word", "get_scaled_cp_constant"])

prop("C14", "MLX90641 EEPROM corruption is corrected or reported, never absorbed",
 "Flipping any one bit in any number of the EEPROM words does not change the calibration that is loaded. Flipping two bits of a word that carries calibration data makes loading fail with the checksum error carrying such a word as it was received.",
 ["inputs", "fault_sequences"], "all 832 x 16 single flips, all 832 x 120 double flips, and combinations over several words",
 "Tests flip bits of isolated words in the codec, never of a whole EEPROM image through the loader.",
 ["mlx90641/eeprom.rs", "mlx90641/hamming.rs"], ["get_hamming_u16 / validate_checksum use for every word", "error propagation in from_data"])

prop("C15", "Loading calibration never panics, whatever the bytes and their length",
 "For any byte string of any length, loading a calibration for either camera returns a calibration or an error, without panicking or overflowing. Input shorter than the 1664-byte EEPROM is always refused, and bytes beyond the first 1664 have no influence. Loading over the bus reads the 832 words at 0x2400 of the addressed camera and gives the same result as loading those bytes directly.",
 ["inputs"], "all byte strings of all lengths for both cameras",
 "Tests load three well-formed dumps of the right length.",
 ["mlx90640/eeprom.rs", "mlx90641/eeprom.rs", "util.rs"], ["from_data length checks", "integer arithmetic on scaled remainders", "FromI2C for the calibrations"])

prop("C16", "Supply voltage, gain and ambient temperature follow the datasheet formulas",
 "For any calibration constants and any frame words, Delta V = (VDD word - VDD25)/K_VDD, VDD = (resolution correction * VDD word - VDD25)/K_VDD + 3.3, the PTAT ratio, the ambient temperature and the gain factor equal the documented formulas up to floating-point rounding. Where a formula divides by zero there is no finite result, and no stand-in for one. No combination of frame words and constants makes these calculations panic.",
 ["inputs", "configurations"], "all 16-bit frame words, all decodable calibrations, all 16 resolution pairs",
 "Tests use the datasheet's worked example, where the resolution correction is 1 and all words are moderate.",
 ["calculations.rs"], ["delta_v", "v_dd", "v_ptat_art", "ambient_temperature", "CommonIrData::new"])

prop("C17", "Raw IR values follow the datasheet formulas for every pixel",
 "For any calibration, frame and emissivity, each pixel's IR value equals (word*gain + interleave compensation - offset*(1+K_Ta*(Ta-25))*(1+K_V*(VDD-3.3)))/emissivity minus, when the camera has a gradient coefficient, that coefficient times the same expression for the subpage's compensation pixel, up to floating-point rounding. The constants used for pixel i are those of pixel i, and for the MLX90641 those of the image's subpage. Interleave compensation is applied only when the interleave access pattern is in use. Where the formulas divide by zero (a gain word of zero, for one) a pixel has no finite value.",
 ["inputs", "configurations"], "all pixels, subpages, access patterns, emissivities, resolutions and gradient coefficients on both cameras",
 "Tests check one pixel of the datasheet example and one chess-pattern frame.",
 ["calculations.rs"], ["per_pixel_v_ir", "raw_pixels_to_ir_data", "raw_pixels_to_temperatures"])

prop("C18", "Object temperatures follow the datasheet formulas; one pass equals two",
 "For any IR value, ambient and reflected temperature, emissivity and constants, each pixel's temperature equals the documented basic-range formula (with gradient-compensated, ambient-corrected sensitivity, and with the reflected term exactly when emissivity is not 1) up to floating-point rounding. The single-pass and the two-step (IR image, then temperatures) calculation agree for every pixel and return the same ambient temperature. Where a formula divides by zero a pixel has no finite temperature.",
 ["inputs", "configurations"], "all pixels, subpages, emissivities, reflected temperatures and calibrations on both cameras",
 "Tests check one pixel and one frame with emissivity 1, where the reflected term vanishes, and never compare the two routes.",
 ["calculations.rs"], ["t_ar", "sensitivity_correction_coefficient", "per_pixel_temperature", "raw_ir_to_temperatures", "raw_pixels_to_temperatures"])

prop("C19", "Frame rate and resolution conversions are exact and mutually inverse",
 "A frame rate converts to its exact frequency and to the exact frame period, and back: a number converts to a frame rate exactly when it equals one of 0.5, 1, 2, 4, 8, 16, 32, 64 (for integers, 1 to 64), and every other number, NaN and infinities included, is refused with an error. Resolutions convert to and from exactly 16, 17, 18 and 19, subpages and access patterns (interleave, chess) to and from exactly 0 and 1. All of them compare as their numbers do. The defaults are 2 Hz and 18 bits.",
 ["inputs"], "all u8 values and all 2^32 f32 values",
 "Tests try a few values; acceptance of a wrong number or a wrong period for one rate slips through.",
 ["register.rs"], ["TryFrom<f32>/TryFrom<u8> for FrameRate", "From<FrameRate> for Duration", "Resolution conversions"])

prop("C20", "Bus discipline: only legal transfers to the configured address",
 "In every history, every transfer is addressed to the camera's configured I2C address, every read selects a word address with two bytes and reads a whole, positive number of words lying within one of the camera's documented areas (RAM, EEPROM, or one register), and every write is one word to the status or the control register. The EEPROM is read only while constructing a driver from the camera; image calls read nothing but RAM words and registers.",
 ["histories", "configurations", "fault_sequences"], "all driver calls on both cameras, any I2C address, any register contents, with failures and camera updates at any point",
 "The mock bus used by the tests tolerates many malformed transfers and records only their count.",
 ["driver.rs", "common.rs", "register.rs", "calculations.rs", "mlx90640/mod.rs", "mlx90641/mod.rs"], ["read_ram", "Register::address", "from_i2c/to_i2c", "Address::as_bytes"])

prop("C21", "I2C configuration register: three flags mapped exactly, reserved bits preserved",
 "For every 16-bit value of the I2C configuration register (0x800F), the fast-mode-plus and current-limiter flags are the inverses of bits 0 and 2 and the threshold flag is bit 1. Reading the register from the camera, changing any flags and writing it back changes exactly those flags' bits: reserved bits keep the value that was read. The default is fast mode plus and current limiter on, threshold not halved, and registers compare equal exactly when their flags are equal.",
 ["inputs", "histories"], "all 65536 register values x every sequence of flag changes, over the bus",
 "Tests only use values whose reserved bits are zero.",
 ["register.rs"], ["I2cRegister From<&[u8]> / Into<[u8;2]>", "from_i2c/to_i2c"])

prop("C22", "Image generation never panics and honours any buffer length",
 "For any RAM contents, register contents, decodable calibration, emissivity and reflected temperature, every image call completes without panicking. It accepts a buffer of any length: a shorter one receives the leading pixels, a longer one keeps its remaining elements, and the values written do not depend on the buffer's length.",
 ["inputs", "configurations"], "arbitrary 16-bit RAM words (extremes included), arbitrary buffers from empty to larger than the image, both cameras",
 "Tests use well-behaved frames and exactly sized buffers.",
 ["calculations.rs", "driver.rs"], ["raw_pixels_to_ir_data", "raw_pixels_to_temperatures", "delta_v"])

prop("C23", "Low-level frame reading and camera constants agree with the memory map",
 "Reading a frame with the low-level function places the RAM word of pixel i at bytes 2i and 2i+1 of the buffer for every pixel of the requested subpage, and returns V_BE, PTAT, VDD, gain and that subpage's compensation pixel as signed words from their documented addresses. The published read ranges never overlap, stay inside the buffer and the RAM, number at most the image height, and cover every pixel of the subpage; the pixel-membership sequence has one entry per pixel. Image dimensions, basic temperature range, self-heating and the 16 resolution corrections are the documented ones.",
 ["inputs", "configurations"], "both cameras x both subpages x both access patterns x arbitrary RAM contents",
 "Tests check the range lists literally for some configurations but not where the data ends up.",
 ["common.rs", "calculations.rs", "mlx90640/mod.rs", "mlx90641/mod.rs", "mlx90640/address.rs", "mlx90641/address.rs"], ["read_ram", "pixel_ranges", "pixels_in_subpage", "RamData::from_i2c", "resolution_correction"])

prop("C24", "Drivers and their clones do not influence one another",
 "What a driver does and returns is determined by its own calls and by what its camera does. Any other driver in the program, of the same or of another camera or model, with whatever calls (also between the transfers of one call of the first), changes nothing about it, unless it writes to the same camera. A clone of a driver has the settings and the camera configuration of the original at that moment and behaves as the original would have; from then on neither notices what the other is told.",
 ["histories", "schedules", "configurations"], "any histories of calls of two drivers, interleaved at any transfer, and clones made at any point of a history",
 "Every test uses a single driver and drops it; shared or lost state only shows when two of them are used in turn.",
 ["driver.rs", "common.rs", "calculations.rs", "mlx90640/eeprom.rs", "mlx90641/eeprom.rs"], ["CameraDriver fields and Clone", "absence of shared state"])

prop("C25", "Errors keep their cause and show it",
 "An error made from a bus error or from a library error keeps that very value: matching on it and its source give the cause back, read and write failures are told apart, and both its Display and its Debug text contain the cause's Debug text. The text of a library error contains its message, and that of a checksum error the received word as 0x and exactly four hexadecimal digits. Library errors are equal exactly when kind and content are equal.",
 ["inputs"], "all 65536 checksum words, arbitrary bus error values, every kind of library error",
 "No test looks at an error's text or source.",
 ["error.rs"], ["Display / Debug of Error and LibraryError", "source()", "From<LibraryError>"])

prop("C26", "Addresses and named RAM words convert without loss",
 "An address made from any 16-bit number is that number again, and addresses compare as their numbers do. A number or address converts to a camera's named RAM word exactly when it is the documented address of that word (pixel base, V_BE, PTAT, VDD, gain, the two compensation pixels, end of RAM), and every other one is refused; the name converts back to the same address. Names compare, add and (when the result is not negative) subtract as their addresses do. An address is shown (Debug) with its number in hexadecimal.",
 ["inputs"], "all 65536 addresses and all names of both cameras",
 "No test converts an address.",
 ["common.rs", "util.rs", "mlx90640/address.rs", "mlx90641/address.rs"], ["Address conversions", "RamAddress TryFrom / Into", "address_enum_ops!"])

prop("C27", "Polling shows exactly the camera's frames, each once, in one buffer",
 "A caller polls with generate_image_if_ready into one buffer and keeps up: no frame completes before the one before it has been acknowledged. Then the polls return true exactly once for every frame the camera completes, in their order (also for one that was waiting at the start), and false otherwise; a poll that fails in a read loses no frame and leaves the buffer as it was. At every moment each pixel of the buffer is the datasheet temperature for the latest reported frame of that pixel's subpage, made with the session settings of that poll, or what the caller had put there if there was none; so two frames of both subpages (one on the MLX90641) fill the picture. The ambient temperature is that of the latest image.",
 ["histories", "schedules", "fault_sequences", "configurations"], "sessions of any length, frames completed at any point of a poll, failing reads, every pattern, resolution, emissivity and reflected temperature, synchronizing or resetting in between, any previous contents of the buffer",
 "Tests make one image into a fresh buffer; lost or doubled frames, and what earlier contents of the buffer do to the next image, only show in sessions.",
 ["driver.rs", "calculations.rs"], ["generate_image_if_ready", "generate_image_subpage_to", "raw_pixels_to_temperatures / raw_pixels_to_ir_data loops"])

prop("C28", "Per-pixel sequences are the same however they are read",
 "A per-pixel sequence (offsets, sensitivities, voltage and ambient coefficients, access pattern compensation, subpage membership) yields one entry for every pixel and then ends for good; the memory ranges are between one and HEIGHT; flagged pixels come in ascending order, each once, all inside the image, and any() says whether there are any. The entries are the same however they are taken: one at a time, by skipping (nth, skip), in steps, to the last, folded, counted or through an adapter, in any mix; a size hint is never wrong about what is left; two sequences of the same data do not disturb each other.",
 ["inputs", "histories"], "both cameras, both subpages and patterns, any calibration, any mix of iterator operations from any position",
 "Tests collect or zip a sequence once from its start; an iterator with state that is wrong after a skip, or at its end, passes them.",
 ["common.rs", "mlx90640/mod.rs", "mlx90640/eeprom.rs", "mlx90641/mod.rs", "mlx90641/eeprom.rs"], ["CalibrationData iterators", "pixels_in_subpage / pixel_ranges", "FlaggedPixels"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
