"""Planted bugs: written from the properties and the code, not from the checks."""
BUGS = []
def bug(id, needs, what, edits, demo, **kw):
    BUGS.append(dict(id=id, property=id.split("-")[0], needs=needs, what=what, edits=edits, demo=demo, **kw))

# ---------------------------------------------------------------- C01
bug("C01-start-sets-overwrite", "set_start_measurement on a status word whose overwrite bit is clear",
    "starting a measurement also sets the overwrite-enabled bit of the status word",
    [("register.rs", "    pub fn set_start_measurement(&mut self) {\n        self.0 |= Self::STEP_MODE_MASK",
      "    pub fn set_start_measurement(&mut self) {\n        self.0 |= Self::STEP_MODE_MASK | Self::OVERWRITE_ENABLED_MASK")],
    """
let mut s = status(0x0001);
s.set_start_measurement();
assert_eq!(raw(s), 0x0021);
""")
bug("C01-control-eq-subpage", "two control words that differ only in the selected subpage",
    "control registers that differ in the selected subpage compare equal",
    [("register.rs", "            | Self::SUBPAGE_REPEAT_MASK\n            | Self::SUBPAGE_MASK\n            | Self::FRAME_RATE_MASK",
      "            | Self::SUBPAGE_REPEAT_MASK\n            | Self::FRAME_RATE_MASK")],
    """
assert!(control(0x1901) != control(0x1911));
assert!(control(0x1901) == control(0x1921));
""")
bug("C01-subpage-clears-reserved", "set_subpage on a control word with reserved bit 5 or 6 set",
    "selecting a subpage clears the reserved bits above it",
    [("register.rs", "self.0 = self.0 & !Self::SUBPAGE_MASK | (subpage_num", "self.0 = self.0 & !0x0070 | (subpage_num")],
    """
let mut c = control(0x1961);
c.set_subpage(Subpage::One);
assert_eq!(raw(c), 0x1971);
""")

# ---------------------------------------------------------------- C02
bug("C02-selected-subpage-needs-repeat", "selected subpage is one while subpage repeat is off",
    "selected_subpage() reports zero unless subpage repeat is on, so set_subpage(One) then reads back Zero",
    [("driver.rs", "        Ok(self.control_register()?.subpage())",
      "        let control = self.control_register()?;\n        // Only meaningful in subpage repeat mode\n        if control.subpage_repeat() {\n            Ok(control.subpage())\n        } else {\n            Ok(Subpage::Zero)\n        }")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
cam.set_subpage(Subpage::One).unwrap();
assert_eq!(cam.selected_subpage().unwrap(), Subpage::One);
""")
bug("C02-masked-write", "a register with bits outside the write mask set (reserved bits, or the status word's subpage)",
    "register writes drop every bit that is not writable, instead of writing back what was read",
    [("register.rs", "        let register_bytes: [u8; 2] = (*self).into();",
      "        let mut register_bytes: [u8; 2] = (*self).into();\n        for (byte, mask) in register_bytes.iter_mut().zip(R::write_mask()) {\n            *byte &= mask;\n        }")],
    """
let sim = Sim::cam640();
sim.set(CONTROL, 0xF901);
sim.set(STATUS, 0x0109);
let mut cam = sim.d640();
cam.set_use_subpages(false).unwrap();
assert_eq!(sim.get(CONTROL), 0xF900);
cam.set_overwrite_enabled(true).unwrap();
assert_eq!(sim.get(STATUS), 0x0119);
""")
bug("C02-reset-only-if-set", "reset_data_available while another bit of the status changes between two reads",
    "clearing the flag reads the status twice and writes back the first value it read, undoing what changed in between",
    [("driver.rs", "        let mut current = self.status_register()?;\n        current.reset_new_data();\n        self.set_status_register(current)",
      "        let mut current = self.status_register()?;\n        // Nothing to do if the camera took it back already\n        if self.data_available()?.is_none() {\n            return Ok(());\n        }\n        current.reset_new_data();\n        self.set_status_register(current)")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.set(STATUS, 0x0008);
sim.log();
let mut n = 0;
sim.on(move |st, op| {
    if let Op::Rd(STATUS, _) = op {
        n += 1;
        if n == 2 {
            // the next frame arrives
            st.words[STATUS as usize] = 0x0019;
        }
    }
});
cam.reset_data_available().unwrap();
sim.off();
let log = sim.log();
let reads = log.iter().filter(|o| matches!(o, Op::Rd(..))).count();
if reads == 1 {
    assert_eq!(log[1], Op::Wr(STATUS, 0x0000));
} else {
    assert_eq!(sim.get(STATUS), 0x0011);
}
""")

# ---------------------------------------------------------------- C03
bug("C03-pattern-only-with-subpages", "the access pattern changed while subpages are disabled",
    "the cached access pattern is only refreshed while subpages are enabled",
    [("driver.rs", "        self.access_pattern = register.access_pattern();\n    }",
      "        // The access pattern only matters when subpages are in use\n        if register.use_subpages() {\n            self.access_pattern = register.access_pattern();\n        }\n    }")],
    """
let sim = Sim::cam640();
sim.set(CONTROL, 0x1900);
let mut cam = sim.d640();
cam.set_access_pattern(AccessPattern::Interleave).unwrap();
let mut buf = vec![f32::MAX; 768];
cam.generate_raw_image_subpage_to(Subpage::Zero, &mut buf).unwrap();
for (i, v) in buf.iter().enumerate() {
    assert_eq!(*v != f32::MAX, (i / 32) % 2 == 0, "pixel {}", i);
}
""")
bug("C03-read-keeps-pattern", "the access pattern changed by another master and then observed by a getter",
    "reading the control register refreshes the resolution but not the access pattern",
    [("driver.rs", "        // Update the resolution as well\n        self.update_control_register(&register);\n        Ok(register)",
      "        // Update the resolution as well\n        self.resolution_correction = Clb::Camera::resolution_correction(\n            self.calibration.resolution(),\n            register.resolution(),\n        );\n        Ok(register)")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.set(CONTROL, 0x0901);
assert_eq!(cam.access_pattern().unwrap(), AccessPattern::Interleave);
let mut buf = vec![f32::MAX; 768];
cam.generate_image_subpage_to(Subpage::One, &mut buf).unwrap();
for (i, v) in buf.iter().enumerate() {
    assert_eq!(*v != f32::MAX, (i / 32) % 2 == 1, "pixel {}", i);
}
""")
bug("C03-resolution-kept-on-pattern-change", "resolution changed behind the driver's back, observed by the read half of a setter that writes nothing",
    "the correction is only recomputed when the access pattern is unchanged",
    [("driver.rs", "        let calibrated_resolution = self.calibration.resolution();\n        self.resolution_correction =\n            Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());\n        self.access_pattern = register.access_pattern();",
      "        let calibrated_resolution = self.calibration.resolution();\n        if self.access_pattern == register.access_pattern() {\n            self.resolution_correction =\n                Clb::Camera::resolution_correction(calibrated_resolution, register.resolution());\n        }\n        self.access_pattern = register.access_pattern();")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
// another master selects interleave and 16 bits at once
sim.set(CONTROL, 0x0101);
cam.frame_rate().unwrap();
let mut a = vec![0f32; 768];
cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
let mut fresh = sim.d640();
let mut b = vec![0f32; 768];
fresh.generate_raw_image_subpage_to(Subpage::Zero, &mut b).unwrap();
assert!(differ(&a, &b) < 1e-4);
""")

# ---------------------------------------------------------------- C04
bug("C04-raw-always-chess", "a raw image in interleave mode on the MLX90640",
    "the raw image call picks its pixels with the chess pattern whatever the access pattern",
    [("driver.rs", "        let ram = self.read_ram(subpage)?;\n        let mut valid_pixels =\n            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();\n        let t_a = raw_pixels_to_ir_data(",
      "        let ram = self.read_ram(subpage)?;\n        let mut valid_pixels =\n            Clb::Camera::pixels_in_subpage(subpage, AccessPattern::Chess).into_iter();\n        let t_a = raw_pixels_to_ir_data(")],
    """
let sim = Sim::cam640();
sim.set(CONTROL, 0x0901);
let mut cam = sim.d640();
let mut buf = vec![f32::MAX; 768];
cam.generate_raw_image_subpage_to(Subpage::One, &mut buf).unwrap();
for (i, v) in buf.iter().enumerate() {
    assert_eq!(*v != f32::MAX, (i / 32) % 2 == 1, "pixel {}", i);
}
""")
bug("C04-nan-pixels-kept", "a pixel whose temperature is not a number (negative radicand)",
    "pixels without a finite temperature keep their old value",
    [("calculations.rs", "                *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);\n            },\n        );\n    common.t_a",
      "                let t_o = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);\n                if t_o.is_finite() {\n                    *output = t_o;\n                }\n            },\n        );\n    common.t_a")],
    """
let sim = Sim::cam640();
sim.set(0x400, 0x8000);
let mut cam = sim.d640();
let mut a = vec![1000f32; 768];
let mut b = vec![2000f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
cam.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
for i in 0..768 {
    let member = (i / 32 + i % 32) % 2 == 0;
    if member {
        assert!(a[i].to_bits() == b[i].to_bits() || (a[i].is_nan() && b[i].is_nan()), "pixel {}", i);
    } else {
        assert!(a[i] == 1000.0 && b[i] == 2000.0);
    }
}
""")

# ---------------------------------------------------------------- C05
bug("C05-unready-means-zero", "generate_image_to while no new data is flagged and the last subpage is one",
    "the unconditional image call uses subpage zero when there is no new data",
    [("driver.rs", "        let subpage = self.last_measured_subpage()?;\n",
      "        let subpage = self.data_available()?.unwrap_or(Subpage::Zero);\n")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.set(STATUS, 0x0001);
let mut buf = vec![f32::MAX; 768];
cam.generate_image_to(&mut buf).unwrap();
for (i, v) in buf.iter().enumerate() {
    assert_eq!(*v != f32::MAX, (i / 32 + i % 32) % 2 == 1, "pixel {}", i);
}
""")

bug("C05-negative-gain-other-cp", "a negative gain word with subpage one",
    "the compensation pixel of subpage zero is read when the gain word is negative",
    [("calculations.rs", "            Self::read_ram_value(bus, i2c_address, Cam::compensation_pixel(subpage))?;",
      "            Self::read_ram_value(bus, i2c_address, Cam::compensation_pixel(if gain < 0 { Subpage::Zero } else { subpage }))?;")],
    """
let sim = Sim::cam640();
sim.set(0x70A, 0xE000);
let mut cam = sim.d640();
let mut a = vec![0f32; 768];
cam.generate_raw_image_subpage_to(Subpage::One, &mut a).unwrap();
sim.set(0x708, 0x1234);
let mut b = vec![0f32; 768];
cam.generate_raw_image_subpage_to(Subpage::One, &mut b).unwrap();
assert_eq!(a, b);
""")

# ---------------------------------------------------------------- C06
bug("C06-ack-first", "another frame (or a failure) between the acknowledgement and the end of the frame's reads",
    "the frame is acknowledged before its data is read",
    [("driver.rs", "        if status_register.new_data() {\n            let subpage = status_register.last_updated_subpage();\n            let mut valid_pixels",
      "        if status_register.new_data() {\n            let subpage = status_register.last_updated_subpage();\n            status_register.reset_new_data();\n            status_register.to_i2c(bus, address)?;\n            let mut valid_pixels"),
     ("driver.rs", "            status_register.reset_new_data();\n            status_register.to_i2c(bus, address)?;\n            Ok(true)", "            Ok(true)")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.set(STATUS, 0x0009);
sim.on(|st, op| {
    if let Op::Rd(a, _) = op {
        if a < 0x8000 {
            st.fail = Some(7);
        }
    }
});
let mut buf = vec![0f32; 768];
assert!(cam.generate_image_if_ready(&mut buf).is_err());
assert_eq!(sim.get(STATUS), 0x0009, "the frame must stay unacknowledged");
""")
bug("C06-ack-clears-overwrite", "image-if-ready while overwriting is enabled in the status register",
    "acknowledging a frame also disables overwriting",
    [("driver.rs", "            status_register.reset_new_data();\n            status_register.to_i2c(bus, address)?;\n            Ok(true)",
      "            status_register.reset_new_data();\n            status_register.set_overwrite_enabled(false);\n            status_register.to_i2c(bus, address)?;\n            Ok(true)")],
    """
let sim = Sim::cam641();
let mut cam = sim.d641();
sim.set(STATUS, 0x0019);
let mut buf = vec![0f32; 192];
assert!(cam.generate_image_if_ready(&mut buf).unwrap());
assert_eq!(sim.get(STATUS), 0x0011);
""")
bug("C06-not-ready-forgets-ambient", "image-if-ready without new data after an image was generated",
    "a not-ready answer forgets the ambient temperature",
    [("driver.rs", "            Ok(true)\n        } else {\n            Ok(false)", "            Ok(true)\n        } else {\n            self.ambient_temperature = None;\n            Ok(false)")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut buf = vec![0f32; 768];
assert!(cam.generate_image_if_ready(&mut buf).unwrap());
let t = cam.ambient_temperature();
assert!(t.is_some());
assert!(!cam.generate_image_if_ready(&mut buf).unwrap());
assert_eq!(cam.ambient_temperature(), t);
""")

# ---------------------------------------------------------------- C07
bug("C07-sync-swallows-read-error", "a failing status read while synchronize() polls",
    "read errors while waiting for data are ignored",
    [("driver.rs", "            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;\n            core::hint::spin_loop();",
      "            if let Ok(current) = StatusRegister::from_i2c(&mut self.bus, self.address) {\n                status_register = current;\n            }\n            core::hint::spin_loop();")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut n = 0;
sim.on(move |st, op| {
    if let Op::Rd(STATUS, _) = op {
        n += 1;
        if n == 3 {
            st.fail = Some(42);
        }
        if n == 5 {
            st.words[STATUS as usize] |= 8;
        }
    }
});
match cam.synchronize() {
    Err(Error::I2cWriteReadError(RdErr(42))) => {}
    other => panic!("{:?}", other),
}
""")
bug("C07-ambient-cleared-first", "a failing read during a temperature image after an earlier image",
    "a failed image call forgets the ambient temperature",
    [("driver.rs", "        let ram = self.read_ram(subpage)?;\n        let mut valid_pixels =\n            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();\n        let t_a = raw_pixels_to_temperatures(",
      "        self.ambient_temperature = None;\n        let ram = self.read_ram(subpage)?;\n        let mut valid_pixels =\n            Clb::Camera::pixels_in_subpage(subpage, self.access_pattern).into_iter();\n        let t_a = raw_pixels_to_temperatures(")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut buf = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut buf).unwrap();
let t = cam.ambient_temperature();
sim.on(|st, op| {
    if let Op::Rd(0x70A, _) = op {
        st.fail = Some(1);
    }
});
assert!(cam.generate_image_subpage_to(Subpage::Zero, &mut buf).is_err());
assert_eq!(cam.ambient_temperature(), t);
""")
bug("C07-ack-error-ignored", "the acknowledging write of image-if-ready fails",
    "a failed acknowledgement is reported as success",
    [("driver.rs", "            status_register.to_i2c(bus, address)?;\n            Ok(true)", "            // The image is complete at this point, there's no use in throwing it away\n            let _ = status_register.to_i2c(bus, address);\n            Ok(true)")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut buf = vec![0f32; 768];
sim.on(|st, op| {
    if let Op::Wr(..) = op {
        st.fail = Some(5);
    }
});
match cam.generate_image_if_ready(&mut buf) {
    Err(Error::I2cWriteError(WrErr(5))) => {}
    other => panic!("{:?}", other),
}
""")
bug("C07-write-retry", "a failing register write",
    "a failed write is retried once, so a transient error is not reported and a second write is issued",
    [("driver.rs", "        register.to_i2c(&mut self.bus, self.address)\n    }", "        register\n            .to_i2c(&mut self.bus, self.address)\n            .or_else(|_| register.to_i2c(&mut self.bus, self.address))\n    }")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.log();
let mut done = false;
sim.on(move |st, op| {
    if let Op::Wr(..) = op {
        if !done {
            st.fail = Some(5);
        }
        done = true;
    }
});
assert!(cam.set_overwrite_enabled(true).is_err());
assert_eq!(sim.log().iter().filter(|o| matches!(o, Op::Wr(..))).count(), 1);
""")

# ---------------------------------------------------------------- C08
bug("C08-pending-satisfies", "synchronize() while new data is already pending",
    "the flag is cleared only in the word that is written, so pending data satisfies the wait",
    [("driver.rs", "        let mut status_register = self.status_register()?;\n        status_register.reset_new_data();\n        status_register.set_overwrite_enabled(true);\n        status_register.set_start_measurement();\n        status_register.to_i2c(&mut self.bus, self.address)?;",
      "        let mut status_register = self.status_register()?;\n        let mut request = status_register;\n        request.reset_new_data();\n        request.set_overwrite_enabled(true);\n        request.set_start_measurement();\n        request.to_i2c(&mut self.bus, self.address)?;")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.set(STATUS, 0x0009);
sim.log();
let mut n = 0;
sim.on(move |st, op| {
    if let Op::Rd(..) = op {
        n += 1;
        if n == 4 {
            st.words[STATUS as usize] |= 8;
        }
    }
});
cam.synchronize().unwrap();
assert_eq!(sim.log().len(), 5);
""")
bug("C08-gives-up", "a camera that takes more than 1000 polls to deliver the frame (any real camera)",
    "synchronize() gives up after 1000 polls and reports success without data",
    [("driver.rs", "        while !status_register.new_data() {\n            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;\n            core::hint::spin_loop();",
      "        let mut polls = 0u16;\n        while !status_register.new_data() && polls < 1000 {\n            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;\n            polls += 1;\n            core::hint::spin_loop();")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut n = 0;
sim.on(move |st, op| {
    if let Op::Rd(..) = op {
        n += 1;
        if n == 3000 {
            st.words[STATUS as usize] |= 8;
        }
    }
});
cam.synchronize().unwrap();
assert!(sim.get(STATUS) & 8 != 0);
""")
bug("C08-clears-again", "synchronize() returning on fresh data",
    "synchronize() consumes the frame it waited for",
    [("driver.rs", "            core::hint::spin_loop();\n        }\n        Ok(())", "            core::hint::spin_loop();\n        }\n        if status_register.start_measurement() {\n            // The camera never reset the request\n            self.reset_data_available()?;\n        }\n        Ok(())")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut n = 0;
sim.on(move |st, op| {
    if let Op::Rd(..) = op {
        n += 1;
        if n == 4 {
            st.words[STATUS as usize] |= 8;
        }
    }
});
cam.synchronize().unwrap();
assert!(sim.get(STATUS) & 8 != 0);
""")

# ---------------------------------------------------------------- C09
bug("C09-default-is-one", "use_default_emissivity on an MLX90641 whose EEPROM stores another emissivity",
    "the default emissivity is always 1",
    [("driver.rs", "        let default_emissivity = self.calibration.emissivity();\n        self.emissivity = default_emissivity.unwrap_or(1f32);", "        self.emissivity = 1f32;")],
    """
let sim = Sim::cam641();
sim.set(0x2423, code(486));
let mut cam = sim.d641();
assert_eq!(cam.effective_emissivity(), 486.0 / 512.0);
cam.override_emissivity(0.5);
cam.use_default_emissivity();
assert_eq!(cam.effective_emissivity(), 486.0 / 512.0);
""")
bug("C09-reflected-falls-back-to-last-ambient", "an image with emissivity below 1, no reflected temperature set, and an earlier image at another ambient temperature",
    "without a reflected temperature the ambient temperature of the previous image is used",
    [("driver.rs", "            &self.calibration,\n            self.emissivity,\n            self.reflected_temperature,\n            self.resolution_correction,\n            &self.pixel_buffer,\n            ram,\n            subpage,\n            self.access_pattern,\n            &mut valid_pixels,\n            destination,\n        );\n        self.ambient_temperature = Some(t_a);",
      "            &self.calibration,\n            self.emissivity,\n            self.reflected_temperature.or(self.ambient_temperature),\n            self.resolution_correction,\n            &self.pixel_buffer,\n            ram,\n            subpage,\n            self.access_pattern,\n            &mut valid_pixels,\n            destination,\n        );\n        self.ambient_temperature = Some(t_a);")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
cam.override_emissivity(0.7);
let mut a = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
let mut b = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
assert_eq!(differ(&a, &b), 0.0);
""")
bug("C09-override-clamped", "an emissivity override above 1",
    "overrides are clamped to 1",
    [("driver.rs", "        self.emissivity = new_value;", "        self.emissivity = new_value.min(1f32);")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
cam.override_emissivity(1.05);
assert_eq!(cam.effective_emissivity(), 1.05);
""")
bug("C09-raw-image-ambient", "a raw image after a temperature image at another ambient temperature",
    "raw images only set the ambient temperature if there is none yet",
    [("driver.rs", "            &mut valid_pixels,\n            destination,\n        );\n        self.ambient_temperature = Some(t_a);\n        Ok(())\n    }\n\n    pub fn generate_image_subpage_to",
      "            &mut valid_pixels,\n            destination,\n        );\n        self.ambient_temperature.get_or_insert(t_a);\n        Ok(())\n    }\n\n    pub fn generate_image_subpage_to")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut a = vec![0f32; 768];
cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
let t0 = cam.ambient_temperature().unwrap();
sim.set(0x720, 0x0700);
cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
assert!((cam.ambient_temperature().unwrap() - t0).abs() > 1.0);
""")

# ---------------------------------------------------------------- C10

bug("C10-wide-values", "checksumming a value of 12 bits",
    "values of 12 bits are accepted",
    [("mlx90641/hamming.rs", "    if word & !DATA_MASK != 0 {", "    if word > DATA_MASK + 0x0800 {")],
    """
use mlx9064x::mlx90641::hamming::add_checksum;
for v in 0..=u16::MAX {
    assert_eq!(add_checksum(v).is_ok(), v < 0x0800, "{:#x}", v);
}
""")

# ---------------------------------------------------------------- C11
bug("C11-corner-step-reserved", "an EEPROM with a reserved bit above the corner temperature step set",
    "the reserved bits above the corner temperature step are taken as part of it",
    [("mlx90640/eeprom.rs", "i16::from(unpacked_corner_temps[0] & 0x3) * 10", "i16::from(unpacked_corner_temps[0]) * 10")],
    """
let a = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
let mut w = ee640();
w[0x3F] ^= 0x4000;
let b = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
assert_eq!(a.corner_temperatures(), b.corner_temperatures());
""")
bug("C11-interleave-cp-sign", "a negative interleave correction constant of the compensation pixels",
    "the sign bit of the compensation pixels' interleave correction is dropped",
    [("mlx90640/eeprom.rs", "i16_from_bits(&(word & 0x003F).to_be_bytes(), 6);", "i16_from_bits(&(word & 0x001F).to_be_bytes(), 6);")],
    """
let mut w = ee640();
w[0x35] = w[0x35] & !0x3F | 0x30;
let c = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
assert_eq!(c.access_pattern_compensation_cp(Subpage::One, AccessPattern::Interleave), Some(-1.0));
""")
bug("C11-gain-unsigned", "an EEPROM whose gain word has its top bit set",
    "the gain word is decoded as unsigned",
    [("mlx90640/eeprom.rs", "        let gain = buf.get_i16();", "        let gain = buf.get_u16();")],
    """
let mut w = ee640();
w[0x30] = 0xF000;
let c = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
assert_eq!(c.gain(), -4096.0);
""")

# ---------------------------------------------------------------- C12
bug("C12-outlier-only-is-failed", "a pixel word that is exactly 1 (only the outlier bit)",
    "a pixel whose word has only the outlier bit set is flagged as failed instead",
    [("mlx90640/eeprom.rs", "                    if high == 0 && low == 0 {", "                    if high == 0 && low & 0xFE == 0 {")],
    """
let mut w = ee640();
w[0x40 + 100] = 1;
let c = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
let f: Vec<usize> = c.failed_pixels().iter_flagged().collect();
let o: Vec<usize> = c.outlier_pixels().iter_flagged().collect();
assert!(!f.contains(&100));
assert!(o.contains(&100));
""")

bug("C12-kta-scale-clamped", "an EEPROM whose K_Ta remainder scale exceeds 7",
    "the remainder scale of K_Ta loses its top bit",
    [("mlx90640/eeprom.rs", "        let k_ta_scale2_exp = unpacked_scales[3];", "        let k_ta_scale2_exp = unpacked_scales[3] & 0x7;")],
    """
let mut w = ee640();
w[0x38] = w[0x38] & !0xF | 9;
w[0x40 + 5] = 0x0412; // remainder 1
let c = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
let base = i32::from((w[0x37] >> 8) as u8 as i8);
let scale = 2f32.powi((((w[0x38] >> 4) & 0xF) + 8) as i32);
assert_eq!(*c.k_ta_pixels(Subpage::Zero).nth(5).unwrap(), (base + 512) as f32 / scale);
""")

# ---------------------------------------------------------------- C13
bug("C13-failed-ignores-kv", "a pixel whose data is all zero except K_V",
    "a pixel is flagged failed although its K_V data is not zero",
    [("mlx90641/eeprom.rs", "                && k_ta_raw == 0\n                && k_v_raw == 0\n", "                && k_ta_raw == 0\n")],
    """
let mut w = ee641();
w[0x40 + 7] = 0;
w[0x100 + 7] = 0;
w[0x1C0 + 7] = code(3);
w[0x280 + 7] = 0;
let c = Mlx90641Calibration::from_data(&bytes_of(&w)).unwrap();
assert!(!c.failed_pixels().iter_flagged().any(|i| i == 7));
""")
bug("C13-corner-signed", "a stored corner temperature of 1024 or more",
    "the stored corner temperatures are decoded as signed 11-bit values",
    [("mlx90641/eeprom.rs", "            *ct = get_hamming_u16(buf)? as i16;", "            *ct = get_hamming_i16(buf)?;")],
    """
let mut w = ee641();
w[0x3E] = code(1200);
let c = Mlx90641Calibration::from_data(&bytes_of(&w)).unwrap();
assert_eq!(c.corner_temperatures()[7], 1200);
""")
bug("C13-tgc-narrow", "a negative or large temperature gradient coefficient",
    "the TGC is decoded from eight bits instead of nine",
    [("mlx90641/eeprom.rs", "        let tgc_unscaled = i16_from_bits(&tgc_bytes[..], 9);", "        let tgc_unscaled = i16::from(i16_from_bits(&tgc_bytes[..], 8));")],
    """
let mut w = ee641();
w[0x33] = code(0x0400 | 0x00C0);
let c = Mlx90641Calibration::from_data(&bytes_of(&w)).unwrap();
assert_eq!(c.temperature_gradient_coefficient(), Some(3.0));
""")

# ---------------------------------------------------------------- C14
bug("C14-emissivity-defaulted", "two flipped bits in the emissivity word",
    "a corrupt emissivity word is replaced by 1 instead of being reported",
    [("mlx90641/eeprom.rs", "        let emissivity = f32::from(get_hamming_i16(&mut buf)?) / 9f32.exp2();", "        let emissivity = f32::from(get_hamming_i16(&mut buf).unwrap_or(512)) / 9f32.exp2();")],
    """
let mut w = ee641();
w[0x23] ^= 0x0011;
let bad = w[0x23];
assert_eq!(Mlx90641Calibration::from_data(&bytes_of(&w)), Err(LibraryError::Checksum(bad)));
""")
bug("C14-corrupt-pixel-failed", "two flipped bits in a word of one pixel",
    "a pixel with an uncorrectable word is flagged as failed instead of the load being refused",
    [("mlx90641/eeprom.rs", "offset_0_raw, offset_1_raw, alpha_raw, k_ta_raw, k_v_raw) = pixel_data?;", "offset_0_raw, offset_1_raw, alpha_raw, k_ta_raw, k_v_raw) =\n                pixel_data.unwrap_or_default();")],
    """
let mut w = ee641();
w[0x100 + 33] ^= 0x0300;
let bad = w[0x100 + 33];
assert_eq!(Mlx90641Calibration::from_data(&bytes_of(&w)), Err(LibraryError::Checksum(bad)));
""")

# ---------------------------------------------------------------- C15

bug("C15-offsets-from-the-end", "MLX90641 data longer than the EEPROM",
    "the subpage-one offsets are taken from the end of the data, wherever that is",
    [("mlx90641/eeprom.rs", "            &data[(EepromAddress::PixelOffsetSubpage1Start.offset_from_base() * WORD_SIZE)..];", "            &data[(data.len() - Mlx90641::NUM_PIXELS * WORD_SIZE)..];")],
    """
let a = bytes_of(&ee641());
let mut b = a.clone();
b.extend(bytes_of(&[code(100); 64]));
assert!(Mlx90641Calibration::from_data(&a) == Mlx90641Calibration::from_data(&b));
""")

# ---------------------------------------------------------------- C16
bug("C16-gain-magnitude", "a frame with a negative gain word",
    "the gain factor ignores the sign of the gain word",
    [("calculations.rs", "        let gain = calibration.gain() / f32::from(ram.gain);", "        let gain = calibration.gain() / f32::from(ram.gain).abs();")],
    """
let c = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
let ram = RamData { t_a_v_be: 0x4BF2, t_a_ptat: 0x06AF, v_dd_pixel: -13115, gain: -6273, compensation_pixel: 0 };
let d = CommonIrData::new(1.0, 1.0, &c, &ram);
assert!((d.gain + c.gain() / 6273.0).abs() < 1e-5);
""")

# ---------------------------------------------------------------- C17
bug("C17-cp-constants-swapped", "a raw image with a gradient coefficient away from 25 degrees and 3.3 V",
    "the raw image swaps K_V and K_Ta of the compensation pixel",
    [("calculations.rs", "            calibration.k_v_cp(subpage),\n            calibration.k_ta_cp(subpage),", "            calibration.k_ta_cp(subpage),\n            calibration.k_v_cp(subpage),")],
    """
let sim = Sim::cam641();
let mut w = ee641();
w[0x33] = code(0x0400 | 64); // TGC 1
w[0x31] = code(0x0280 | 5);
w[0x32] = code(0x00C0 | 3);
sim.load(0x2400, &w);
sim.set(0x5AA, 0xC800);
let mut cam = sim.d641();
let mut a = vec![0f32; 192];
cam.generate_raw_image_subpage_to(Subpage::Zero, &mut a).unwrap();
let t_a = cam.ambient_temperature().unwrap();
let c = Mlx90641Calibration::from_data(&bytes_of(&w)).unwrap();
let g = c.gain() / f32::from(sim.get(0x58A) as i16);
let vdd = v_dd(&c, 1.0, delta_v(&c, 0xC800u16 as i16));
let com = CommonIrData { gain: g, v_dd: vdd, emissivity: cam.effective_emissivity(), t_a };
let cp = per_pixel_v_ir(sim.get(0x588) as i16, &com, c.offset_reference_cp(Subpage::Zero), c.k_v_cp(Subpage::Zero), c.k_ta_cp(Subpage::Zero), None);
let px = per_pixel_v_ir(sim.get(0x400) as i16, &com, *c.offset_reference_pixels(Subpage::Zero).next().unwrap(), *c.k_v_pixels(Subpage::Zero).next().unwrap(), *c.k_ta_pixels(Subpage::Zero).next().unwrap(), None);
let want = px - c.temperature_gradient_coefficient().unwrap() * cp;
assert!((a[0] - want).abs() < 1e-2 * (1.0 + want.abs()), "{} {}", a[0], want);
""", nth={"calculations.rs": 0})
bug("C17-offsets-of-subpage-zero", "an MLX90641 temperature image of subpage one whose offsets differ from subpage zero's",
    "the temperature image always uses the offsets of subpage zero",
    [("calculations.rs", "        .zip(calibration.offset_reference_pixels(subpage))", "        .zip(calibration.offset_reference_pixels(Subpage::Zero))")],
    """
let sim = Sim::cam641();
let mut cam = sim.d641();
let mut a = vec![0f32; 192];
cam.generate_image_subpage_to(Subpage::One, &mut a).unwrap();
let mut w = ee641();
w[0x280 + 9] = code(0x1F0);
sim.load(0x2400, &w);
let mut cam = sim.d641();
let mut b = vec![0f32; 192];
cam.generate_image_subpage_to(Subpage::One, &mut b).unwrap();
assert!(a[9] != b[9]);
assert_eq!(a[8], b[8]);
""", nth={"calculations.rs": 1})
bug("C17-filter-before-compensation", "an interleave-mode temperature image on the MLX90640",
    "in the temperature image the interleave compensation is advanced per valid pixel instead of per pixel",
    [("calculations.rs", "        .zip(calibration.alpha_pixels(subpage))\n        .zip(access_mode_compensation)\n        // filter out the pixels that aren't part of this subpage\n        .filter(|_| valid_pixels.next().unwrap_or_default())\n",
      "        .zip(calibration.alpha_pixels(subpage))\n        // filter out the pixels that aren't part of this subpage\n        .filter(|_| valid_pixels.next().unwrap_or_default())\n        .zip(access_mode_compensation)\n")],
    """
let sim = Sim::cam640();
sim.set(CONTROL, 0x0901);
let mut w = ee640();
w[0x35] = 0x2363;
sim.load(0x2400, &w);
let mut cam = sim.d640();
let mut a = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::One, &mut a).unwrap();
// the same values by the two-step calculation
let mut b = vec![0f32; 768];
cam.generate_raw_image_subpage_to(Subpage::One, &mut b).unwrap();
let c = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
let mut valid = Mlx90640::pixels_in_subpage(Subpage::One, AccessPattern::Interleave);
raw_ir_to_temperatures(&c, 1.0, cam.ambient_temperature().unwrap(), None, Subpage::One, &mut valid, &mut b);
assert!(differ(&a, &b) < 1e-4, "{}", differ(&a, &b));
""")

# ---------------------------------------------------------------- C18
bug("C18-two-step-alpha-cp", "the two-step calculation for subpage one of an MLX90640 with a gradient coefficient",
    "the two-step calculation uses the compensation pixel sensitivity of subpage zero",
    [("calculations.rs", "        .map(|tgc| calibration.alpha_cp(subpage) * tgc);", "        .map(|tgc| calibration.alpha_cp(Subpage::Zero) * tgc);")],
    """
let sim = Sim::cam640();
let mut w = ee640();
w[0x39] = w[0x39] & 0x3FF | 0x7C00;
w[0x3C] = w[0x3C] & 0xFF00 | 0x0040;
sim.load(0x2400, &w);
let mut cam = sim.d640();
let mut a = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::One, &mut a).unwrap();
let mut b = vec![0f32; 768];
cam.generate_raw_image_subpage_to(Subpage::One, &mut b).unwrap();
let c = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
let mut valid = Mlx90640::pixels_in_subpage(Subpage::One, AccessPattern::Chess);
raw_ir_to_temperatures(&c, 1.0, cam.ambient_temperature().unwrap(), None, Subpage::One, &mut valid, &mut b);
assert!(differ(&a, &b) < 1e-4, "{}", differ(&a, &b));
""", nth={"calculations.rs": 0})
bug("C18-emissivity-near-one", "an emissivity within 0.01 of one, but not one, and a reflected temperature",
    "the reflected term is dropped for emissivities close to one",
    [("calculations.rs", "    if emissivity == 1.0 {", "    if (emissivity - 1.0).abs() < 0.01 {")],
    """
let a = t_ar(25.0, 100.0, 0.995);
let e = 373.15f64.powi(4) - (373.15f64.powi(4) - 298.15f64.powi(4)) / 0.995;
assert!((f64::from(a) - e).abs() / e < 1e-4);
""")
bug("C18-zero-reflected", "a reflected temperature of exactly zero degrees",
    "a reflected temperature of zero is taken as not set",
    [("calculations.rs", "    let t_r = t_r.unwrap_or(common.t_a - Clb::Camera::SELF_HEATING);", "    let t_r = t_r\n        .filter(|t_r| *t_r != 0f32)\n        .unwrap_or(common.t_a - Clb::Camera::SELF_HEATING);")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
cam.override_emissivity(0.6);
let mut a = vec![0f32; 768];
let mut b = vec![0f32; 768];
cam.set_reflected_temperature(Some(0.0));
cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
cam.set_reflected_temperature(Some(0.0001));
cam.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
assert!(differ(&a, &b) < 1e-4);
""")

# ---------------------------------------------------------------- C19
bug("C19-half-within-epsilon", "the float next to 0.5",
    "numbers within one machine epsilon of 0.5 convert to 0.5 Hz",
    [("register.rs", "        if value == 0.5 {", "        if (value - 0.5).abs() < f32::EPSILON {")],
    """
use std::convert::TryFrom;
assert!(FrameRate::try_from(f32::from_bits(0.5f32.to_bits() + 1)).is_err());
assert!(FrameRate::try_from(f32::from_bits(0.5f32.to_bits() - 1)).is_err());
assert!(FrameRate::try_from(0.5).is_ok());
""")
bug("C19-period-milliseconds", "the frame period of the rates whose period is not a whole number of milliseconds",
    "frame periods are rounded to milliseconds",
    [("register.rs", "        Duration::from_secs_f32(frequency.recip())", "        Duration::from_millis((1000f32 / frequency) as u64)")],
    """
let d: std::time::Duration = FrameRate::SixtyFour.into();
assert_eq!(d, std::time::Duration::from_nanos(15_625_000));
""")

# ---------------------------------------------------------------- C20

# ---------------------------------------------------------------- C21
bug("C21-limiter-needs-fmp", "an I2C configuration with the current limiter off and fast mode plus off",
    "turning the current limiter off is lost when fast mode plus is off too",
    [("register.rs", "        if !register.sda_current_limiter {", "        if register.fast_mode_plus && !register.sda_current_limiter {")],
    """
let mut r = I2cRegister::from(&[0u8, 0][..]);
r.set_sda_current_limiter(false);
r.set_fast_mode_plus(false);
assert_eq!(raw(r), 0x0005);
""")

# ---------------------------------------------------------------- C22
bug("C22-whole-rows-only", "a buffer whose length is not a whole number of rows",
    "the last, incomplete row of a short buffer is not written",
    [("calculations.rs", "    destination\n        .iter_mut()\n        // Chunk into two byte segments, for each 16-bit value\n        .zip(pixel_data.chunks_exact(2))",
      "    destination\n        .chunks_exact_mut(Clb::Camera::WIDTH)\n        .flatten()\n        // Chunk into two byte segments, for each 16-bit value\n        .zip(pixel_data.chunks_exact(2))")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut a = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
let mut b = vec![0f32; 77];
cam.generate_image_subpage_to(Subpage::Zero, &mut b).unwrap();
assert_eq!(&a[..77], &b[..]);
""", nth={"calculations.rs": 1})
bug("C22-if-ready-slices", "image-if-ready with a buffer shorter than the image",
    "image-if-ready panics for a short buffer",
    [("driver.rs", "                ram,\n                subpage,\n                self.access_pattern,\n                &mut valid_pixels,\n                destination,\n            );\n            self.ambient_temperature = Some(ambient_temperature);",
      "                ram,\n                subpage,\n                self.access_pattern,\n                &mut valid_pixels,\n                &mut destination[..(Clb::Camera::NUM_PIXELS)],\n            );\n            self.ambient_temperature = Some(ambient_temperature);")],
    """
let sim = Sim::cam641();
let mut cam = sim.d641();
let mut b = vec![0f32; 191];
assert!(cam.generate_image_if_ready(&mut b).unwrap());
""")
bug("C22-integer-offset", "a pixel word of -32768",
    "an integer negation in the per-pixel calculation overflows for the most negative pixel word",
    [("calculations.rs", "    let pixel_gain = f32::from(pixel_data) * common.gain;", "    // The sensor counts downwards\n    let pixel_gain = f32::from(-pixel_data) * -common.gain;")],
    """
let sim = Sim::cam640();
sim.set(0x405, 0x8000);
let mut cam = sim.d640();
let mut b = vec![0f32; 768];
cam.generate_raw_image_subpage_to(Subpage::One, &mut b).unwrap();
""")

# ---------------------------------------------------------------- C23

bug("C23-gain-clamped", "a gain word with the top bit set",
    "frame words above 0x7FFF read as the gain are clamped to 0x7FFF",
    [("calculations.rs", "        let gain = Self::read_ram_value(bus, i2c_address, Cam::GAIN)?;", "        // The gain is always positive\n        let gain = Self::read_ram_value(bus, i2c_address, Cam::GAIN)?.max(0);")],
    """
let mut sim = Sim::cam640();
sim.set(0x70A, 0xE000);
let ram = RamData::from_i2c::<Sim, Mlx90640>(&mut sim, ADDR, Subpage::Zero).unwrap();
assert_eq!(ram.gain, -8192);
""")

# ---------------------------------------------------------------- replacements
bug("C05-641-cp-of-zero", "an MLX90641 frame of subpage one whose compensation pixel words differ between the subpages",
    "the MLX90641 uses the compensation pixel of subpage zero for both subpages",
    [("mlx90641/mod.rs", "            Subpage::One => RamAddress::CompensationPixelOne,", "            Subpage::One => RamAddress::CompensationPixelZero,")],
    """
let sim = Sim::cam641();
let w = 0x2433; // resolution and gradient coefficient
sim.set(w, code(0x0420)); // a gradient coefficient of 0.5
let mut cam = sim.d641();
let mut a = vec![0f32; 192];
cam.generate_raw_image_subpage_to(Subpage::One, &mut a).unwrap();
sim.set(0x588, 0x0123);
let mut b = vec![0f32; 192];
cam.generate_raw_image_subpage_to(Subpage::One, &mut b).unwrap();
assert_eq!(a, b);
sim.set(0x5A8, 0x0123);
cam.generate_raw_image_subpage_to(Subpage::One, &mut b).unwrap();
assert!(a != b);
""")


bug("C12-chess2-sign", "an MLX90640 EEPROM whose second interleave correction constant is negative",
    "the sign bit of the second interleave correction constant is dropped",
    [("mlx90640/eeprom.rs", "(word & 0x07C0) >> 6", "(word & 0x03C0) >> 6")],
    """
let mut w = ee640();
w[0x35] = 0x0400; // -16 / 2
let c = Mlx90640Calibration::from_data(&bytes_of(&w)).unwrap();
let v: Vec<f32> = c.access_pattern_compensation_pixels(AccessPattern::Interleave).map(|v| *v.unwrap()).collect();
assert!(v.iter().any(|x| x.abs() == 8.0), "{:?}", &v[..8]);
""")
bug("C15-resolution-reserved-panics", "an MLX90640 EEPROM with the reserved bit above the resolution set",
    "a reserved bit next to the calibrated resolution panics the EEPROM parser",
    [("mlx90640/eeprom.rs", "        let resolution_byte = unpacked_scales[0] & 0x3;\n        let resolution = Resolution::from_raw(resolution_byte as u16)?;",
      "        let resolution_byte = unpacked_scales[0] & 0x7;\n        let resolution =\n            Resolution::from_raw(resolution_byte as u16).expect(\"The resolution is only two bits\");")],
    """
let mut w = ee640();
w[0x38] |= 0x4000;
let c = Mlx90640Calibration::from_data(&bytes_of(&w));
assert!(c.is_ok());
""")
bug("C16-small-delta-v", "a supply voltage within 2 mV of the calibration voltage, but not equal to it",
    "small supply voltage deviations are not compensated in the ambient temperature",
    [("calculations.rs", "    let numerator = (v_ptat_art / (1f32 + calibration.k_v_ptat() * delta_v)) - v_ptat_25;",
      "    let v_ptat = if delta_v.abs() < 0.002 {\n        v_ptat_art\n    } else {\n        v_ptat_art / (1f32 + calibration.k_v_ptat() * delta_v)\n    };\n    let numerator = v_ptat - v_ptat_25;")],
    """
let c = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
let dv = 0.0018f32;
let t = ambient_temperature(&c, 12800.0, dv);
let e = (12800.0 / (1.0 + f64::from(c.k_v_ptat()) * f64::from(dv)) - f64::from(c.v_ptat_25())) / f64::from(c.k_t_ptat()) + 25.0;
assert!((f64::from(t) - e).abs() < 5e-4, "{} {}", t, e);
""")
bug("C20-sync-pair", "synchronize() on any camera",
    "synchronize polls two words, the second of which is outside the documented registers",
    [("driver.rs", "            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;\n            core::hint::spin_loop();",
      "            let mut poll = [0u8; 4];\n            self.bus\n                .write_read(self.address, &StatusRegister::address().as_bytes(), &mut poll)\n                .map_err(Error::I2cWriteReadError)?;\n            status_register = StatusRegister::from(&poll[..2]);\n            core::hint::spin_loop();")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.log();
sim.on(|st, op| {
    if let Op::Rd(STATUS, _) = op {
        st.words[STATUS as usize] |= 0x0008;
    }
});
cam.synchronize().unwrap();
for op in sim.log() {
    assert!(matches!(op, Op::Rd(STATUS, 2) | Op::Wr(STATUS, _)), "{:?}", op);
}
""")
bug("C20-sync-default-address", "synchronize() on a camera whose address is not 0x33",
    "synchronize polls the default I2C address instead of the driver's",
    [("driver.rs", "            status_register = StatusRegister::from_i2c(&mut self.bus, self.address)?;\n            core::hint::spin_loop();",
      "            status_register = StatusRegister::from_i2c(&mut self.bus, 0x33)?;\n            core::hint::spin_loop();")],
    """
let mut sim = Sim::cam640();
sim.addr = 0x2A;
let mut cam = Mlx90640Driver::new(sim.clone(), 0x2A).unwrap();
sim.on(|st, op| {
    if let Op::Rd(STATUS, _) = op {
        st.words[STATUS as usize] |= 0x0008;
    }
});
cam.synchronize().unwrap();
""")
bug("C23-self-heating", "an MLX90641 image with the reflected temperature left to the default",
    "the MLX90641's self-heating is that of the MLX90640",
    [("mlx90641/mod.rs", "    const SELF_HEATING: f32 = 5.0;", "    const SELF_HEATING: f32 = 8.0;")],
    """
assert_eq!(<Mlx90641 as MelexisCamera>::SELF_HEATING, 5.0);
""")

# ================================================================ second batch
bug("C24-clone-forgets-reflected", "a clone taken after the reflected temperature was set",
    "a cloned driver starts without the reflected temperature of the original",
    [("driver.rs", "#[derive(Clone, Debug)]\npub struct CameraDriver<", "#[derive(Debug)]\npub struct CameraDriver<"),
     ("driver.rs", "impl<'a, Clb, I2C, const HEIGHT: usize, const BUFFER_SIZE: usize>\n    CameraDriver<Clb, I2C, HEIGHT, BUFFER_SIZE>\nwhere\n    Clb: CalibrationData<'a>,",
      "impl<Clb: Clone, I2C: Clone, const H: usize, const N: usize> Clone for CameraDriver<Clb, I2C, H, N> {\n    fn clone(&self) -> Self {\n        Self {\n            bus: self.bus.clone(),\n            address: self.address,\n            calibration: self.calibration.clone(),\n            // The frame in the buffer belongs to the original\n            pixel_buffer: [0u8; N],\n            resolution_correction: self.resolution_correction,\n            ambient_temperature: self.ambient_temperature,\n            emissivity: self.emissivity,\n            access_pattern: self.access_pattern,\n            reflected_temperature: None,\n        }\n    }\n}\n\nimpl<'a, Clb, I2C, const HEIGHT: usize, const BUFFER_SIZE: usize>\n    CameraDriver<Clb, I2C, HEIGHT, BUFFER_SIZE>\nwhere\n    Clb: CalibrationData<'a>,")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
cam.set_reflected_temperature(Some(12.5));
let twin = cam.clone();
assert_eq!(twin.reflected_temperature(), Some(12.5));
""")
bug("C24-shared-subpage", "two drivers in two threads reading frames of different subpages at the same time",
    "the subpage of the frame being read is kept in a static, so that another driver's frame changes it halfway",
    [("common.rs", "    // Pick a maximum size of HEIGHT, as the worst access pattern is still by rows\n",
      "    use core::sync::atomic::{AtomicBool, Ordering};\n    static SECOND_SUBPAGE: AtomicBool = AtomicBool::new(false);\n    SECOND_SUBPAGE.store(subpage == Subpage::One, Ordering::SeqCst);\n    // Pick a maximum size of HEIGHT, as the worst access pattern is still by rows\n"),
     ("common.rs", "    // And now to read the non-pixel information out\n",
      "    let subpage = if SECOND_SUBPAGE.load(Ordering::SeqCst) {\n        Subpage::One\n    } else {\n        Subpage::Zero\n    };\n    // And now to read the non-pixel information out\n")],
    """
// a bus whose transfers take part in another driver's frame
struct Busy(u32, Vec<u16>);
impl embedded_hal::blocking::i2c::WriteRead for Busy {
    type Error = RdErr;
    fn write_read(&mut self, _: u8, a: &[u8], buffer: &mut [u8]) -> Result<(), RdErr> {
        self.1.push(u16::from_be_bytes([a[0], a[1]]));
        buffer.fill(0);
        if self.0 > 0 {
            self.0 -= 1;
            let mut px = [0u8; 1536];
            read_ram::<Mlx90640, _, 24>(&mut Busy(0, vec![]), 0x34, AccessPattern::Chess, Subpage::One, &mut px).unwrap();
        }
        Ok(())
    }
}
impl embedded_hal::blocking::i2c::Write for Busy {
    type Error = WrErr;
    fn write(&mut self, _: u8, _: &[u8]) -> Result<(), WrErr> {
        Ok(())
    }
}
let mut b = Busy(1, vec![]);
let mut px = [0u8; 1536];
read_ram::<Mlx90640, _, 24>(&mut b, 0x33, AccessPattern::Chess, Subpage::Zero, &mut px).unwrap();
assert!(b.1.contains(&0x0708) && !b.1.contains(&0x0728), "{:x?}", b.1);
""")
bug("C25-checksum-unpadded", "an MLX90641 word with a checksum error whose leading digit is zero",
    "the corrupt word is shown without its leading zeros",
    [("error.rs", "{:#06X}", "{:#X}")],
    """
let e = mlx9064x::mlx90641::hamming::validate_checksum(0x0003).unwrap_err();
assert_eq!(format!("{}", e), "Invalid checksum for data 0x0003");
""")
bug("C25-write-error-no-source", "the source of a failed write",
    "the source of a write error is not given",
    [("error.rs", "            Error::I2cWriteError(err) => Some(err),", "            Error::I2cWriteError(_) => None,")],
    """
#[derive(Debug, Clone, Copy, PartialEq)]
struct E(u32);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "E")
    }
}
impl std::error::Error for E {}
struct B;
impl embedded_hal::blocking::i2c::WriteRead for B {
    type Error = E;
    fn write_read(&mut self, _: u8, _: &[u8], _: &mut [u8]) -> Result<(), E> {
        Ok(())
    }
}
impl embedded_hal::blocking::i2c::Write for B {
    type Error = E;
    fn write(&mut self, _: u8, _: &[u8]) -> Result<(), E> {
        Ok(())
    }
}
let e: Error<B> = Error::I2cWriteError(E(3));
let s = std::error::Error::source(&e).expect("a source");
assert_eq!(s.downcast_ref::<E>(), Some(&E(3)));
""")
bug("C07-new-defaults-control", "the control register cannot be read while the driver is created",
    "creating a driver ignores a failure to read the control register and assumes the defaults",
    [("driver.rs", "        let control = ControlRegister::from_i2c(&mut bus, address)?;",
      "        let control = ControlRegister::from_i2c(&mut bus, address)\n            .unwrap_or_else(|_: Error<I2C>| ControlRegister::default_mlx90640());")],
    """
let sim = Sim::cam640();
let cal = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
sim.st.borrow_mut().fail = Some(9);
let r = Mlx90640Driver::new_with_calibration(sim.clone(), ADDR, cal);
assert!(matches!(r, Err(Error::I2cWriteReadError(RdErr(9)))));
""")
bug("C08-already-measuring", "synchronize() while the start bit is still set and overwriting is on",
    "synchronize does not write its request when the start bit is already set",
    [("driver.rs", "        status_register.set_start_measurement();\n        status_register.to_i2c(&mut self.bus, self.address)?;\n        // Spin",
      "        status_register.set_start_measurement();\n        if status_register != StatusRegister::from_i2c(&mut self.bus, self.address)? {\n            status_register.to_i2c(&mut self.bus, self.address)?;\n        }\n        // Spin")],
    """
let sim = Sim::cam640();
sim.set(STATUS, 0x0030);
let mut cam = sim.d640();
sim.log();
let mut reads = 0;
sim.on(move |st, op| {
    if let Op::Rd(STATUS, _) = op {
        reads += 1;
        if reads > 4 {
            st.words[STATUS as usize] |= 0x0008;
        }
    }
});
cam.synchronize().unwrap();
let writes = sim.log().iter().filter(|o| matches!(o, Op::Wr(STATUS, 0x0030))).count();
assert_eq!(writes, 1);
""")
bug("C09-default-forgets-reflected", "use_default_emissivity after a reflected temperature was set",
    "going back to the default emissivity also drops the reflected temperature",
    [("driver.rs", "        self.emissivity = default_emissivity.unwrap_or(1f32);",
      "        self.emissivity = default_emissivity.unwrap_or(1f32);\n        self.reflected_temperature = None;")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
cam.override_emissivity(0.9);
cam.set_reflected_temperature(Some(20.0));
cam.use_default_emissivity();
assert_eq!(cam.reflected_temperature(), Some(20.0));
""")
bug("C22-empty-means-not-ready", "image-if-ready with an empty buffer",
    "image-if-ready with an empty buffer says there is no new data and does not acknowledge it",
    [("driver.rs", "        let mut status_register = StatusRegister::from_i2c(bus, address)?;\n        if status_register.new_data() {",
      "        let mut status_register = StatusRegister::from_i2c(bus, address)?;\n        if status_register.new_data() && !destination.is_empty() {")],
    """
let sim = Sim::cam641();
let mut cam = sim.d641();
assert!(cam.generate_image_if_ready(&mut []).unwrap());
assert_eq!(sim.get(STATUS) & 8, 0);
""")
bug("C18-magnitude-of-radicand", "a pixel so cold that the radicand is negative",
    "negative radicands are replaced with their magnitude",
    [("calculations.rs", "(alpha.powi(3) * v_ir + alpha.powi(4) * t_ar).powf(0.25);", "(alpha.powi(3) * v_ir + alpha.powi(4) * t_ar).abs().powf(0.25);")],
    """
let t = per_pixel_temperature(-820.0, 1e-7, 7.9e9, -0.0004);
assert!(t.is_nan(), "{}", t);
""")
bug("C17-kta-clamped", "a sensor far from 25 degrees with a large K_Ta",
    "the temperature term of the offset is limited to be non-negative",
    [("calculations.rs", "            * (1f32 + k_ta * (common.t_a - 25f32))", "            * (1f32 + k_ta * (common.t_a - 25f32)).max(0f32)")],
    """
let c = CommonIrData { gain: 1.0, v_dd: 3.3, emissivity: 1.0, t_a: 85.0 };
let v = per_pixel_v_ir(10, &c, 100, 0.0, -0.05, None);
assert!((v - 210.0).abs() < 1e-2, "{}", v);
""")
bug("C17-missing-tgc-interleave", "a raw image in interleave mode with a gradient coefficient",
    "the compensation pixel is not subtracted from subpage one in interleave mode",
    [("calculations.rs", "                if let Some(compensation_pixel_offset) = compensation_pixel_offset {\n                    pixel_offset -= compensation_pixel_offset;\n                }",
      "                if let Some(compensation_pixel_offset) = compensation_pixel_offset {\n                    if access_mode_compensation.is_none() || subpage == Subpage::Zero {\n                        pixel_offset -= compensation_pixel_offset;\n                    }\n                }")],
    """
let mut ee = ee640();
ee[0x3C] = (ee[0x3C] & 0xFF00) | 0x0010;
let with = Mlx90640Calibration::from_data(&bytes_of(&ee)).unwrap();
ee[0x3C] &= 0xFF00;
let without = Mlx90640Calibration::from_data(&bytes_of(&ee)).unwrap();
let px = [0u8; 1536];
let ram = RamData { t_a_v_be: 0x4BF2, t_a_ptat: 0x06AF, v_dd_pixel: -13115, gain: 0x1881, compensation_pixel: -56 };
let run = |c: &Mlx90640Calibration| {
    let mut out = [0f32; 768];
    raw_pixels_to_ir_data(c, 1.0, 1.0, &px, ram, Subpage::One, AccessPattern::Interleave,
        &mut core::iter::repeat(true), &mut out);
    out
};
assert!(run(&with)[40] != run(&without)[40]);
""")
bug("C16-gain-zero-guard", "a frame whose gain word is zero",
    "a gain word of zero is treated as an unknown gain of one",
    [("calculations.rs", "        let gain = calibration.gain() / f32::from(ram.gain);",
      "        let gain = if ram.gain == 0 {\n            1f32\n        } else {\n            calibration.gain() / f32::from(ram.gain)\n        };")],
    """
let c = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
let ram = RamData { t_a_v_be: 0x4BF2, t_a_ptat: 0x06AF, v_dd_pixel: -13115, gain: 0, compensation_pixel: -56 };
let d = CommonIrData::new(1.0, 1.0, &c, &ram);
assert!(d.gain.is_infinite());
""")
bug("C16-vbe-narrow", "a V_BE word with the top bit set",
    "the V_BE word is taken as unsigned",
    [("calculations.rs", "calibration.alpha_ptat() + f32::from(t_a_v_be);", "calibration.alpha_ptat() + f32::from(t_a_v_be as u16);")],
    """
let c = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
let v = f64::from(v_ptat_art(&c, 1711, -2));
let e = 1711.0 / (1711.0 * f64::from(c.alpha_ptat()) - 2.0) * 262144.0;
assert!((v - e).abs() / e < 1e-4, "{} {}", v, e);
""")
bug("C13-alpha-reference-wraps", "an MLX90641 whose sensitivity scale is 44 or more",
    "large sensitivity scales wrap at six bits",
    [("mlx90641/eeprom.rs", "            scales.push(first_scale + 20);", "            scales.push((first_scale + 20) & 0x3F);")],
    """
let mut ee = ee641();
// the scale of the first two rows: 50, that of the next: 5
ee[0x19] = code((50 << 5) | 5);
let c = Mlx90641Calibration::from_data(&bytes_of(&ee)).unwrap();
let a = f64::from(*c.alpha_pixels(Subpage::Zero).next().unwrap());
assert!(a < 1e-15, "{}", a);
""")
bug("C13-cp-scale-five-bits", "an MLX90641 whose K_V of the compensation pixel has a scale of 16 or more",
    "the scale of the compensation pixel's constants loses its top bit",
    [("mlx90641/eeprom.rs", "let raw_scale = (word & 0x07C0) >> 6;", "let raw_scale = (word & 0x03C0) >> 6;")],
    """
let mut ee = ee641();
ee[0x31] = code((17 << 6) | 5);
let c = Mlx90641Calibration::from_data(&bytes_of(&ee)).unwrap();
let k = f64::from(c.k_v_cp(Subpage::Zero));
let e = 5.0 / 131072.0;
let t = f64::from(c.k_ta_cp(Subpage::Zero));
assert!((k - e).abs() < 1e-9 || (t - e).abs() < 1e-9, "{} {}", k, t);
""")
bug("C11-ct-step-shared", "a corner temperature step of 30 with large corner temperatures",
    "the upper corner temperature is limited to the sensor's range",
    [("mlx90640/eeprom.rs", "let ct3 = i16::from(unpacked_corner_temps[1]) * corner_temperature_step + ct2;",
      "let ct3 = (i16::from(unpacked_corner_temps[1]) * corner_temperature_step + ct2).min(800);")],
    """
let mut ee = ee640();
ee[0x3F] = 0x3FF9;
let c = Mlx90640Calibration::from_data(&bytes_of(&ee)).unwrap();
assert_eq!(c.corner_temperatures(), &[-40, 0, 450, 900]);
""")
bug("C14-second-offset-tolerated", "two flipped bits in an offset of subpage one",
    "a corrupt offset of subpage one is replaced by the one of subpage zero",
    [("mlx90641/eeprom.rs", "let offset_1_raw = get_hamming_i16(&mut offset_1_bytes)?;", "let offset_1_raw = get_hamming_i16(&mut offset_1_bytes).unwrap_or(offset_0_raw);")],
    """
let mut ee = ee641();
ee[0x280 + 7] ^= 0x0011;
assert!(Mlx90641Calibration::from_data(&bytes_of(&ee)).is_err());
""")
bug("C03-resolution-needs-pattern-change", "only the resolution was changed by another master and then observed",
    "a newly observed resolution is used only when the access pattern changed as well",
    [("driver.rs", "    fn status_register(&mut self) -> Result<StatusRegister, Error<I2C>> {",
      "    #[allow(dead_code)]\n    fn cached_pattern(&self) -> AccessPattern {\n        self.access_pattern\n    }\n\n    fn status_register(&mut self) -> Result<StatusRegister, Error<I2C>> {"),
     ("driver.rs", "        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;\n        // Update the resolution as well\n        self.update_control_register(&register);\n        Ok(register)",
      "        let register = ControlRegister::from_i2c(&mut self.bus, self.address)?;\n        // Update the resolution as well, unless it is what we have anyways\n        if register.access_pattern() != self.cached_pattern() || register.data_hold() {\n            self.update_control_register(&register);\n        }\n        Ok(register)")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
// another master changes the resolution, this driver sees it
let mut img = [0f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut img).unwrap();
sim.set(CONTROL, 0x1501);
cam.frame_rate().unwrap();
let mut img2 = [0f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut img2).unwrap();
let mut fresh = sim.d640();
let mut img3 = [0f32; 768];
fresh.generate_image_subpage_to(Subpage::Zero, &mut img3).unwrap();
assert_eq!(img2.map(f32::to_bits), img3.map(f32::to_bits));
""")
bug("C06-ack-drops-reserved", "image-if-ready on a status word with reserved bits set",
    "the acknowledgement writes a status word with only the defined bits",
    [("driver.rs", "            status_register.reset_new_data();\n            status_register.to_i2c(bus, address)?;",
      "            let overwrite = status_register.overwrite_enabled();\n            let mut status_register = StatusRegister::from(&[0u8, 0u8][..]);\n            status_register.set_overwrite_enabled(overwrite);\n            status_register.reset_new_data();\n            status_register.to_i2c(bus, address)?;")],
    """
let sim = Sim::cam640();
sim.set(STATUS, 0x0149);
let mut cam = sim.d640();
let mut img = [0f32; 768];
assert!(cam.generate_image_if_ready(&mut img).unwrap());
assert_eq!(sim.get(STATUS), 0x0141);
""")
bug("C02-641-pattern-ignored", "set_access_pattern on an MLX90641",
    "set_access_pattern does nothing on the MLX90641",
    [("driver.rs", "            if current.$field() != new_value {", "            if current.$field() != new_value\n                && !(HEIGHT == 12 && stringify!($field) == \"access_pattern\")\n            {")],
    """
let sim = Sim::cam641();
sim.set(CONTROL, 0x0901);
let mut cam = sim.d641();
cam.set_access_pattern(AccessPattern::Chess).unwrap();
assert_eq!(sim.get(CONTROL), 0x1901);
""")

# ---------------------------------------------------------------- third batch
bug("C03-hold-keeps-pattern", "the access pattern changes while data hold is on",
    "the cached access pattern is not refreshed from a control word whose data hold bit is set",
    [("driver.rs", "        self.access_pattern = register.access_pattern();\n    }",
      "        // Held data was taken with the previous pattern\n        if !register.data_hold() {\n            self.access_pattern = register.access_pattern();\n        }\n    }")],
    """
let sim = Sim::cam640();
sim.set(CONTROL, 0x1905);
let mut cam = sim.d640();
cam.set_access_pattern(AccessPattern::Interleave).unwrap();
let mut img = [0f32; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut img).unwrap();
assert!(img[1] != 0.0, "pixel 1 belongs to subpage zero in interleave mode");
assert!(img[33] == 0.0, "pixel 33 belongs to subpage one in interleave mode");
""")
bug("C07-cp-read-failure-zero", "the last transfer of an image, the compensation pixel's read, fails",
    "a failed read of the compensation pixel is taken as a value of zero",
    [("calculations.rs", "            Self::read_ram_value(bus, i2c_address, Cam::compensation_pixel(subpage))?;",
      "            Self::read_ram_value(bus, i2c_address, Cam::compensation_pixel(subpage)).unwrap_or(0);")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.on(|st, op| if op == Op::Rd(0x708, 2) { st.fail = Some(4) });
let mut img = [0f32; 768];
assert!(cam.generate_image_subpage_to(Subpage::Zero, &mut img).is_err());
""")
bug("C08-overwrite-kept-when-pending", "synchronize while data is pending and overwriting is off",
    "synchronize turns overwriting on only if no data was pending",
    [("driver.rs", "        status_register.reset_new_data();\n        status_register.set_overwrite_enabled(true);\n",
      "        let pending = status_register.new_data();\n        status_register.reset_new_data();\n        if !pending {\n            status_register.set_overwrite_enabled(true);\n        }\n")],
    """
let sim = Sim::cam640();
sim.set(STATUS, 0x0008);
let mut cam = sim.d640();
sim.on(|st, op| if let Op::Rd(STATUS, _) = op { if st.words[STATUS as usize] & 0x20 != 0 { st.words[STATUS as usize] = (st.words[STATUS as usize] & !0x20) | 0x8 } });
sim.log();
cam.synchronize().unwrap();
let ws: Vec<Op> = sim.log().into_iter().filter(|o| matches!(o, Op::Wr(..))).collect();
assert_eq!(ws, vec![Op::Wr(STATUS, 0x0030)]);
""")
bug("C09-nan-ambient-kept", "an image of a frame whose ambient temperature is not a number",
    "an ambient temperature that is not finite leaves the previous one in place",
    [("driver.rs", "            self.ambient_temperature = Some(ambient_temperature);\n",
      "            if ambient_temperature.is_finite() {\n                self.ambient_temperature = Some(ambient_temperature);\n            }\n")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut img = [0f32; 768];
assert!(cam.generate_image_if_ready(&mut img).unwrap());
let first = cam.ambient_temperature().unwrap();
assert!(first.is_finite());
sim.set(0x700, 0);
sim.set(0x720, 0);
sim.set(STATUS, 0x0009);
assert!(cam.generate_image_if_ready(&mut img).unwrap());
assert!(cam.ambient_temperature().unwrap().is_nan());
""")
bug("C22-length-u16", "a destination of 65536 or more elements",
    "the destination's length is taken modulo 65536",
    [("driver.rs", "        self.generate_image_subpage_to(subpage, destination)\n    }",
      "        let length = usize::from(destination.len() as u16);\n        self.generate_image_subpage_to(subpage, &mut destination[..length])\n    }")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut img = vec![0f32; 65536 + 3];
cam.generate_image_to(&mut img).unwrap();
assert!(img[4] != 0.0);
""")
bug("C22-image-counter-overflow", "the 256th image of one driver",
    "images are counted in a byte that overflows",
    [("driver.rs", "    reflected_temperature: Option<f32>,\n}", "    reflected_temperature: Option<f32>,\n\n    /// The number of images generated\n    images: u8,\n}"),
     ("driver.rs", "            reflected_temperature: None,\n", "            reflected_temperature: None,\n            images: 0,\n"),
     ("driver.rs", "            self.ambient_temperature = Some(ambient_temperature);\n", "            self.ambient_temperature = Some(ambient_temperature);\n            self.images += 1;\n")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut img = [0f32; 2];
for i in 0..300u16 {
    sim.set(STATUS, 0x0008 | (i % 2));
    assert!(cam.generate_image_if_ready(&mut img).unwrap());
}
""")
bug("C05-641-chess-first-half", "an MLX90641 whose access pattern was set to chess, subpage one",
    "in chess mode the MLX90641's pixels are always read from the first subpage's half of the memory",
    [("mlx90641/mod.rs", "    fn pixel_ranges(subpage: Subpage, _access_pattern: AccessPattern) -> Self::PixelRangeIterator {",
      "    fn pixel_ranges(subpage: Subpage, access_pattern: AccessPattern) -> Self::PixelRangeIterator {\n        let subpage = match access_pattern {\n            AccessPattern::Chess => Subpage::Zero,\n            AccessPattern::Interleave => subpage,\n        };")],
    """
let sim = Sim::cam641();
sim.set(CONTROL, 0x1901);
let mut cam = sim.d641();
let mut img = [0f32; 192];
cam.generate_image_subpage_to(Subpage::One, &mut img).unwrap();
let first = img[0];
sim.set(0x420, 0x0040);
cam.generate_image_subpage_to(Subpage::One, &mut img).unwrap();
assert!(img[0] != first);
""")
bug("C16-gain-of-zero", "a frame whose gain word is zero",
    "a gain word of zero is replaced by one",
    [("calculations.rs", "        let gain = Self::read_ram_value(bus, i2c_address, Cam::GAIN)?;",
      "        let mut gain = Self::read_ram_value(bus, i2c_address, Cam::GAIN)?;\n        if gain == 0 {\n            gain = 1;\n        }")],
    """
let sim = Sim::cam640();
sim.set(0x70A, 0);
let mut cam = sim.d640();
let mut img = [7f32; 768];
cam.generate_raw_image_subpage_to(Subpage::Zero, &mut img).unwrap();
assert!(!img[0].is_finite());
""")
bug("C06-torn-is-not-ready", "the camera switches subpages while the image is being read",
    "the status is read again after the frame, and if the subpage changed the image is not reported",
    [("driver.rs", "            self.ambient_temperature = Some(ambient_temperature);\n            status_register.reset_new_data();\n",
      "            self.ambient_temperature = Some(ambient_temperature);\n            let now = StatusRegister::from_i2c(bus, address)?;\n            if now.last_updated_subpage() != subpage {\n                return Ok(false);\n            }\n            status_register.reset_new_data();\n")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.on(|st, op| if op == Op::Rd(0x708, 2) { st.words[STATUS as usize] = 0x0009 });
let mut img = [0f32; 768];
let filled = cam.generate_image_if_ready(&mut img).unwrap();
assert!(filled || img.iter().all(|p| *p == 0.0), "an image was written, but not reported");
""")
bug("C12-alpha-not-negative", "an EEPROM in which a pixel's sensitivity comes out negative",
    "a pixel's sensitivity is never below zero",
    [("mlx90640/eeprom.rs", "                        *alpha /= alpha_scale;\n", "                        *alpha = alpha.max(0f32) / alpha_scale;\n")],
    """
let mut ee = ee640();
ee[0x21] = 0; // reference sensitivity
ee[0x22] = 0x8888; // rows
let c = Mlx90640Calibration::from_data(&bytes_of(&ee)).unwrap();
assert!(c.alpha_pixels(Subpage::Zero).any(|a| *a < 0.0));
""")
bug("C26-next-word", "an Address made from 0xFFFF",
    "the address 0xFFFF becomes 0x8010", [("common.rs", "    pub const fn new(address: u16) -> Self {\n        Self(address)", "    pub const fn new(address: u16) -> Self {\n        // There is no memory past 0x8010\n        Self(if address == 0xFFFF { 0x8010 } else { address })")],
    """
assert_eq!(u16::from(Address::new(0xFFFF)), 0xFFFF);
""")
bug("C15-last-window", "a buffer longer than 65536 bytes",
    "the pixel calibration is taken from the last 65536 bytes of the buffer",
    [("mlx90641/eeprom.rs", "PerPixelCalibration::from_data(data)?;", "PerPixelCalibration::from_data(&data[data.len().saturating_sub(65536)..])?;")],
    """
let mut bytes = bytes_of(&ee641());
let a = Mlx90641Calibration::from_data(&bytes).unwrap();
bytes.resize(65536 + 2 * 832, 0);
let b = Mlx90641Calibration::from_data(&bytes).unwrap();
assert!(a.alpha_pixels(Subpage::Zero).eq(b.alpha_pixels(Subpage::Zero)));
""")
bug("C16-ambient-clamped", "an ambient temperature outside of -40 to 85 degrees",
    "the ambient temperature is limited to the camera's operating range",
    [("calculations.rs", "    numerator / calibration.k_t_ptat() + 25f32\n", "    (numerator / calibration.k_t_ptat() + 25f32).clamp(-40f32, 85f32)\n")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut img = [0f32; 768];
sim.set(0x720, 0x0A00);
cam.generate_image_to(&mut img).unwrap();
let a = cam.ambient_temperature().unwrap();
assert!(a > 85.5, "{a}");
""")
bug("C08-late-write", "a camera that finishes another measurement between the two status accesses of synchronize",
    "synchronize reads the status a second time before writing and merges the two",
    [("driver.rs", "        status_register.set_start_measurement();\n        status_register.to_i2c(&mut self.bus, self.address)?;",
      "        status_register.set_start_measurement();\n        if self.data_available()?.is_some() {\n            // already there\n            return Ok(());\n        }\n        status_register.to_i2c(&mut self.bus, self.address)?;")],
    """
let sim = Sim::cam640();
sim.set(STATUS, 0x0010);
let mut cam = sim.d640();
let mut reads = 0;
sim.on(move |st, op| if let Op::Rd(STATUS, _) = op { reads += 1; if reads == 2 { st.words[STATUS as usize] |= 0x8; } if reads > 2 { st.words[STATUS as usize] = (st.words[STATUS as usize] & !0x20) | 0x8; } });
sim.log();
cam.synchronize().unwrap();
assert!(sim.log().iter().any(|o| matches!(o, Op::Wr(STATUS, _))), "no measurement was started");
""")
bug("C20-wraps-at-end", "a register read at an I2C address above 0x77",
    "addresses above 0x77 are masked to seven bits without the reserved ones",
    [("driver.rs", "        let control = ControlRegister::from_i2c(&mut bus, address)?;", "        let address = if address > 0x77 { address & 0x77 } else { address };\n        let control = ControlRegister::from_i2c(&mut bus, address)?;")],
    """
let mut sim = Sim::cam640();
sim.addr = 0x7A;
let cam = Mlx90640Driver::new(sim.clone(), 0x7A);
assert!(cam.is_ok());
let mut cam = cam.unwrap();
assert!(cam.frame_rate().is_ok());
""")
bug("C27-close-enough", "a buffer that shows nearly the same temperature already (a session with one buffer)",
    "a pixel is only updated if its temperature differs from what the buffer holds by more than the noise",
    [("calculations.rs", "                *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);",
      "                // Changes below the noise level are not worth showing\n                let t = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);\n                if !((t - *output).abs() < 0.25) {\n                    *output = t;\n                }")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut a = [0f32; 768];
cam.generate_image_to(&mut a).unwrap();
for p in 0x400..0x700 {
    sim.set(p, sim.get(p).wrapping_add(1));
}
let mut b = [0f32; 768];
cam.generate_image_to(&mut b).unwrap();
cam.generate_image_to(&mut a).unwrap();
assert_eq!(differ(&a, &b), 0.0);
""")
bug("C27-masked-by-the-caller", "a buffer that the caller has filled with infinity (as the start of a minimum)",
    "elements of the buffer that are infinite are taken as masked by the caller and stay so",
    [("calculations.rs", "                *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);",
      "                // The caller can exclude pixels by marking them\n                if !output.is_infinite() {\n                    *output = per_pixel_temperature(v_ir, compensated_alpha, t_ar, k_s_to_basic);\n                }")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
let mut a = [f32::INFINITY; 768];
cam.generate_image_subpage_to(Subpage::Zero, &mut a).unwrap();
cam.generate_image_subpage_to(Subpage::One, &mut a).unwrap();
assert!(a.iter().filter(|x| x.is_infinite()).count() < 768);
""")
bug("C27-sync-eats-frame", "polling after synchronizing",
    "synchronize acknowledges the frame that it waited for, which is then never shown",
    [("driver.rs", "            core::hint::spin_loop();\n        }\n        Ok(())", "            core::hint::spin_loop();\n        }\n        // Everything is in step now\n        status_register.reset_new_data();\n        self.set_status_register(status_register)?;\n        Ok(())")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.on(|st, op| if let Op::Rd(STATUS, _) = op { if st.words[STATUS as usize] & 0x20 != 0 { st.words[STATUS as usize] = 0x18; } });
cam.synchronize().unwrap();
sim.off();
let mut a = [0f32; 768];
assert!(cam.generate_image_if_ready(&mut a).unwrap());
""")

# ================================================================ C28
bug("C28-kv-nth-wraps", "skipping ahead in the voltage coefficients of the MLX90640, then reading on (or skipping beyond the end)",
    "ChessboardIter::nth uses that the pattern repeats every two rows, and does not move on by the whole amount",
    [("mlx90640/eeprom.rs", "impl<'a, T: 'a> Iterator for ChessboardIter<'a, T> {\n    type Item = &'a T;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        if self.index < Mlx90640::NUM_PIXELS {",
      "impl<'a, T: 'a> Iterator for ChessboardIter<'a, T> {\n    type Item = &'a T;\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        // The pattern repeats every two rows\n        self.index += n % (2 * Mlx90640::WIDTH);\n        self.next()\n    }\n\n    fn next(&mut self) -> Option<Self::Item> {\n        if (0..Mlx90640::NUM_PIXELS).contains(&self.index) {")],
    """
let c = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
let mut it = c.k_v_pixels(Subpage::Zero);
assert!(it.nth(100).is_some());
assert_eq!(it.count(), 768 - 101);
""")
bug("C28-ranges-hint-of-start", "a size hint of the MLX90641's memory ranges after some have been taken",
    "the size hint is that of the whole sequence wherever it is",
    [("mlx90641/mod.rs", "impl iter::Iterator for SubpageInterleave {\n    type Item = PixelAddressRange;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        // There are two frame rows per stride\n        match self.stride_count.cmp(&Self::NUM_STRIDES) {",
      "impl iter::Iterator for SubpageInterleave {\n    type Item = PixelAddressRange;\n\n    fn size_hint(&self) -> (usize, Option<usize>) {\n        (Self::NUM_STRIDES as usize, Some(Self::NUM_STRIDES as usize))\n    }\n\n    fn next(&mut self) -> Option<Self::Item> {\n        // There are two frame rows per stride\n        match Ord::cmp(&self.stride_count, &Self::NUM_STRIDES) {")],
    """
let mut it = Mlx90641::pixel_ranges(Subpage::One, AccessPattern::Chess);
it.next();
let (lo, _) = it.size_hint();
assert!(lo <= it.count());
""")
bug("C28-ranges-restart", "taking from the MLX90640's interleaved ranges after they have ended",
    "the interleaved ranges start again after their end",
    [("mlx90640/mod.rs", "                    *current_offset += Mlx90640::WIDTH as u16 * 2;\n                    Some(next_value)\n                } else {\n                    None\n                }",
      "                    *current_offset += Mlx90640::WIDTH as u16 * 2;\n                    Some(next_value)\n                } else {\n                    // Ready for the next frame\n                    *current_offset %= Mlx90640::NUM_PIXELS as u16;\n                    None\n                }")],
    """
let mut it = Mlx90640::pixel_ranges(Subpage::One, AccessPattern::Interleave);
while it.next().is_some() {}
assert!(it.next().is_none());
""")
bug("C28-compensation-fold", "folding (for_each, sum, max...) the interleave correction after some of it has been taken",
    "PixelAccessPatternCompensation::fold starts from the first pixel whatever has been taken",
    [("mlx90640/eeprom.rs", "impl<'a> Iterator for PixelAccessPatternCompensation<'a> {\n    type Item = Option<&'a f32>;\n\n    fn next(&mut self) -> Option<Self::Item> {\n        match self {\n            PixelAccessPatternCompensation::Chess(inner) => inner.next(),",
      "impl<'a> Iterator for PixelAccessPatternCompensation<'a> {\n    type Item = Option<&'a f32>;\n\n    fn fold<B, F>(self, init: B, mut f: F) -> B\n    where\n        F: FnMut(B, Self::Item) -> B,\n    {\n        match self {\n            Self::Chess(inner) => inner.fold(init, f),\n            Self::Interleave { patterns, .. } => (0..Mlx90640::NUM_PIXELS).fold(init, |acc, i| {\n                let column = [0, 1, 0, 2][i % 4];\n                f(acc, Some(&patterns[i / Mlx90640::WIDTH % 2 * 3 + column]))\n            }),\n        }\n    }\n\n    fn next(&mut self) -> Option<Self::Item> {\n        match self {\n            Self::Chess(inner) => inner.next(),")],
    """
let c = Mlx90640Calibration::from_data(&bytes_of(&ee640())).unwrap();
let mut it = c.access_pattern_compensation_pixels(AccessPattern::Interleave);
it.next();
assert_eq!(it.fold(0, |n, _| n + 1), 767);
""")

# ================================================================ further
bug("C19-half-sorts-last", "comparing or sorting frame rates with the half hertz among them",
    "the half hertz frame rate compares greater than all the others",
    [("register.rs", "pub enum FrameRate {\n    /// 0.5 Hz, one frame every two seconds.\n    Half,\n\n    /// 1Hz.", "pub enum FrameRate {\n    /// 1Hz."),
     ("register.rs", "    /// 64Hz.\n    SixtyFour,\n}", "    /// 64Hz.\n    SixtyFour,\n\n    /// 0.5 Hz, one frame every two seconds.\n    Half,\n}")],
    """
assert!(FrameRate::Half < FrameRate::One);
""")
bug("C07-error-counter-overflows", "more than 255 failing status reads with one driver",
    "failed transfers are counted in a byte; the 256th failure panics instead of being reported",
    [("driver.rs", "    /// The emissivity value to use when calculating pixel temperature.\n    emissivity: f32,", "    /// The emissivity value to use when calculating pixel temperature.\n    emissivity: f32,\n\n    /// How many status reads failed so far.\n    failures: u8,"),
     ("driver.rs", "            emissivity,\n            access_pattern,\n            reflected_temperature: None,", "            emissivity,\n            failures: 0,\n            access_pattern,\n            reflected_temperature: None,"),
     ("driver.rs", "        let register = StatusRegister::from_i2c(&mut self.bus, self.address)?;\n        Ok(register)", "        let register = StatusRegister::from_i2c(&mut self.bus, self.address);\n        if register.is_err() {\n            self.failures += 1;\n        }\n        register"),
     ("driver.rs", "        let mut status_register = StatusRegister::from_i2c(bus, address)?;\n        if status_register.new_data() {", "        let status_register = StatusRegister::from_i2c(bus, address);\n        if status_register.is_err() {\n            self.failures += 1;\n        }\n        let mut status_register = status_register?;\n        if status_register.new_data() {")],
    """
let sim = Sim::cam640();
let mut cam = sim.d640();
sim.on(|st, op| {
    if let Op::Rd(STATUS, _) = op {
        st.fail = Some(7);
    }
});
for _ in 0..300 {
    match cam.data_available() {
        Err(Error::I2cWriteReadError(RdErr(7))) => {}
        other => panic!("{:?}", other),
    }
}
""")
bug("C03-power-cycle-guess", "four failing status reads in a row, then a working one, with the interleaved pattern on the MLX90640",
    "after four failed reads in a row the driver takes the camera for power-cycled and assumes its default access pattern",
    [("driver.rs", "    /// The emissivity value to use when calculating pixel temperature.\n    emissivity: f32,", "    /// The emissivity value to use when calculating pixel temperature.\n    emissivity: f32,\n\n    /// How many status reads in a row failed.\n    silent: u8,"),
     ("driver.rs", "            emissivity,\n            access_pattern,\n            reflected_temperature: None,", "            emissivity,\n            silent: 0,\n            access_pattern,\n            reflected_temperature: None,"),
     ("driver.rs", "        let register = StatusRegister::from_i2c(&mut self.bus, self.address)?;\n        Ok(register)", "        let register = StatusRegister::from_i2c(&mut self.bus, self.address);\n        if register.is_err() {\n            self.silent = self.silent.saturating_add(1);\n        } else {\n            if self.silent >= 4 {\n                // The camera must have lost its power, it starts with its defaults\n                self.access_pattern = AccessPattern::Chess;\n            }\n            self.silent = 0;\n        }\n        register")],
    """
let sim = Sim::cam640();
sim.set(CONTROL, sim.get(CONTROL) & !0x1000);
let mut cam = sim.d640();
let mut before = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::One, &mut before).unwrap();
sim.on(|st, op| {
    if let Op::Rd(STATUS, _) = op {
        st.fail = Some(7);
    }
});
for _ in 0..5 {
    assert!(cam.data_available().is_err());
}
sim.off();
cam.data_available().unwrap();
let mut after = vec![0f32; 768];
cam.generate_image_subpage_to(Subpage::One, &mut after).unwrap();
assert_eq!(differ(&before, &after), 0.0);
""")
bug("C26-shown-in-bytes", "an address whose low byte is below 0x10",
    "the Debug text of an address puts the two bytes side by side without padding the low one",
    [("common.rs", '        write!(f, "Address({:#X})", self.0)', '        let [high, low] = self.as_bytes();\n        write!(f, "Address(0x{:X}{:X})", high, low)')],
    """
for w in [0x2400u16, 0x8000, 0x800D, 0x0712, 0x1234] {
    assert_eq!(format!("{:?}", Address::new(w)), format!("Address({:#X})", w));
}
""")
