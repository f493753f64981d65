"""Edits that keep the behaviour, on which every check has to stay quiet.
  python3 tools/refactorings.py [-j N] [ID...]
Each is applied to a scratch copy of /repo, compiled, and the listed checks run against that copy. Prints what each check said.
Not read by any check."""
import subprocess, sys, os, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
R = []
def r(id_, checks, *edits): R.append((id_, checks.split(), edits))
V = "src/tools/vector.rs"; A = "src/tools/analysis.rs"; W = "src/tools/waves.rs"; S = "src/spectra.rs"; D = "src/tools/date.rs"
L = "src/location.rs"; U = "src/units/mod.rs"; DIR = "src/units/direction.rs"; DD = "src/dimensional_data.rs"; SW = "src/swell.rs"
I = "src/tools/interpolation.rs"; LS = "src/tools/linspace.rs"; M = "src/tools/math.rs"
SR = "src/data/spectral_wave_data_record.rs"; WR = "src/data/wave_data_record.rs"; BS = "src/data/directional_spectral_wave_data_record.rs"
CB = "src/data/forecast_cbulletin_wave_data_record.rs"; TS = "src/tide_station.rs"

r("minmax-for", "C21", (V, """    data.iter().for_each(|v| {
        if v.is_nan() {
            return;
        }

        if *v > max {
            max = *v;
        }

        if *v < min {
            min = *v;
        }
    });

    (min, max)
}

pub fn min_max_fill""", """    for v in data {
        if v.is_nan() {
            continue;
        }
        max = if *v > max { *v } else { max };
        min = if *v < min { *v } else { min };
    }

    (min, max)
}

pub fn min_max_fill"""))
r("minmaxfill-index", "C21", (V, """    data.iter_mut().for_each(|v| {
        if v.is_nan() {
            *v = fill_value;
            return;
        }

        if *v > max {
            max = *v;
        }

        if *v < min {
            min = *v;
        }
    });
""", """    for i in 0..data.len() {
        if data[i].is_nan() {
            data[i] = fill_value;
            continue;
        }

        let v = data[i];
        if v < min {
            min = v;
        }
        if v > max {
            max = v;
        }
    }
"""))
r("diff-loop", "C21 C04", (V, """    let last = data.len() - 1;

    (0..last + 1)
        .map(|i| match i {
            0 => data[1] - data[0],
            _ => data[i] - data[i - 1],
        })
        .collect()
}

/// Returns the difference between the arrays n and n+1 items in a new vector with""", """    let mut differences = Vec::with_capacity(data.len());
    for i in 0..data.len() {
        if i == 0 {
            differences.push(data[1] - data[0]);
        } else {
            differences.push(data[i] - data[i - 1]);
        }
    }
    differences
}

/// Returns the difference between the arrays n and n+1 items in a new vector with"""))
r("argsort-rename", "C21 C02", (V, """    let mut indices = (0..data.len()).collect::<Vec<_>>();
    indices.sort_by(|&a, &b| data[a].cmp(&data[b]));
    indices
""", """    let mut order: Vec<usize> = (0..data.len()).collect();
    order.sort_by(|left, right| data[*left].cmp(&data[*right]));
    order
"""))
r("bin-helper", "C21", (V, """    data.iter()
        .map(|v| (((v - min) / (max - min)) * (*bin_count as f64)) as u8)
        .collect()
}
""", """    let range = max - min;
    let bins = *bin_count as f64;
    data.iter().map(|v| (((v - min) / range) * bins) as u8).collect()
}
"""))
r("ldis-expr", "C23", (W, """    let mut xo: f64;
    let mut f: f64;
    let mut df: f64;
""", ""), (W, """    if d >= 1.0 {
        xo = d;
    } else {
        xo = d.sqrt();
    }
""", """    let mut xo: f64 = if d >= 1.0 { d } else { d.sqrt() };
"""), (W, """        f = xo - (d / xo.tanh());
        df = 1.0 + (d / xo.sinh().powi(2));
""", """        let f = xo - (d / xo.tanh());
        let df = 1.0 + (d / xo.sinh().powi(2));
"""))
r("ldis-helper", "C23", (W, """        f = xo - (d / xo.tanh());
        df = 1.0 + (d / xo.sinh().powi(2));
        xf = xo - (f / df);
""", """        f = dispersion_residual(xo, d);
        df = 1.0 + (d / xo.sinh().powi(2));
        xf = xo - (f / df);
"""), (W, """/// Computes the wavelength for a wave with the given period and depth.""", """fn dispersion_residual(x: f64, d: f64) -> f64 {
    x - (d / x.tanh())
}

/// Computes the wavelength for a wave with the given period and depth."""))
r("celerity-match", "C23", (W, """    if let Some(depth) = depth {
        let angle_freq = 2.0 * PI * freq;
        angle_freq / wavenuma(angle_freq, depth)
    } else {
        1.56 / freq
    }
""", """    match depth {
        None => 1.56 / freq,
        Some(h) => {
            let omega = 2.0 * PI * freq;
            omega / wavenuma(omega, h)
        }
    }
"""))
r("wavenuma-loop", "C23", (W, """    for i in 1..d.len() {
        a += d[i] * koh.powi(i as i32);
    }
""", """    for (i, coefficient) in d.iter().enumerate().skip(1) {
        a += coefficient * koh.powi(i as i32);
    }
"""))
r("breakwave-reorder", "C23", (W, """    let a = 43.8 * (1.0 - (-19.0 * beach_slope).exp());
    let b = 1.56 / (1.0 + (-19.5 * beach_slope).exp());
    let deep_refracted""", """    let b = 1.56 / (1.0 + (-19.5 * beach_slope).exp());
    let a = 43.8 * (1.0 - (-19.0 * beach_slope).exp());
    let deep_refracted"""))
r("estimate-early", "C23", (W, """    let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
    let period = swell.period.value.as_ref().unwrap();
    let angle_delta =
        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
    let incident_angle = angle_delta.min(360 - angle_delta);
""", """    let swell_direction = swell.direction.value.as_ref().unwrap();
    let angle_delta = (swell_direction.degrees as f64 - beach_angle).abs() as i32 % 360;
    let incident_angle = if angle_delta > 180 { 360 - angle_delta } else { angle_delta };
    let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
    let period = swell.period.value.as_ref().unwrap();
"""))
r("peaks-index", "C22", (A, """    for (i, v) in data.iter().enumerate() {
        let val = *v;
""", """    for i in 0..data.len() {
        let val = data[i];
"""))
r("peaks-flag", "C22", (A, """        } else {
            if val > min_val + delta {
                min_indexes.push(min_pos);
                max_val = val;
                max_pos = i;
                look_for_max = true;
            }
        }
""", """        } else if val > min_val + delta {
            look_for_max = true;
            max_pos = i;
            max_val = val;
            min_indexes.push(min_pos);
        }
"""))
r("neighbors-merge", "C01", (A, """    // Point at the bottom(3)
    if j != 0 {
        neighbors.push(index - width);
    }

    // Point at bottom_wrap to top
    if j == 0 {
        neighbors.push(t - (width - i));
    }
""", """    // Point at the bottom(3), wrapping to the top
    if j != 0 {
        neighbors.push(index - width);
    } else {
        neighbors.push(t - (width - i));
    }
"""))
r("neighbors-mod", "C01 C02", (A, """    let i = index - (j * width);

    // Point at the left(1)
    if i != 0 {
        neighbors.push(index - 1);
    }

    // Point at the right (2)
    if i != width - 1 {
        neighbors.push(index + 1);
    }
""", """    let i = index % width;
    let at_left = i == 0;
    let at_right = i == width - 1;

    // Point at the left(1)
    if !at_left {
        neighbors.push(index - 1);
    }

    // Point at the right (2)
    if !at_right {
        neighbors.push(index + 1);
    }
"""))
r("watershed-digitize", "C02", (A, """        data.iter()
            .map(|v| 1u8.max((steps as u8).min((1.0 + (max_value - v) * fact).round() as u8)))
            .collect::<Vec<u8>>()
""", """        data.iter()
            .map(|v| digitize(*v, max_value, fact, steps))
            .collect::<Vec<u8>>()
"""), (A, """                let scaled_v = min_value + ((*v as f64) / 255.0) * range;
                1u8.max((steps as u8).min((1.0 + (max_value - scaled_v) * fact).round() as u8))
""", """                let scaled_v = min_value + ((*v as f64) / 255.0) * range;
                digitize(scaled_v, max_value, fact, steps)
"""), (A, """/// Implementation of watershed algorithm as used""", """/// Maps an energy value to its level, the highest energy to level 1
fn digitize(value: f64, max_value: f64, fact: f64, steps: usize) -> u8 {
    let level = (1.0 + (max_value - value) * fact).round() as u8;
    1u8.max((steps as u8).min(level))
}

/// Implementation of watershed algorithm as used"""))
r("watershed-neigh-loop", "C02", (A, """    let neigh = (0..count)
        .map(|i| nearest_neighbors(width, height, i))
        .collect::<Vec<Vec<usize>>>();
""", """    let mut neigh: Vec<Vec<usize>> = Vec::with_capacity(count);
    for i in 0..count {
        neigh.push(nearest_neighbors(width, height, i));
    }
"""))
r("watershed-boundary-helper", "C02", (A, """    for _ in 0..5 {
        imd = imo.clone();

        for jl in 0..count {
            let mut ipt = -1;
            if imo[jl] == 0 {
                let mut ep1 = max_value;

                for (ijn, jn) in neigh[jl].iter().enumerate() {
                    let diff = (data[jl] - data[*jn]).abs();
                    if diff <= ep1 && imo[*jn] != 0 {
                        ep1 = diff;
                        ipt = ijn as i32;
                    }
                }

                if ipt >= 0 {
                    imd[jl] = imo[neigh[jl][ipt as usize]];
                }
            }
        }

        imo = imd.clone();
""", """    for _ in 0..5 {
        imo = absorb_watershed_cells(data, &imo, &neigh, max_value);
"""), (A, """/// Implementation of watershed algorithm as used""", """fn absorb_watershed_cells(
    data: &[f64],
    labels: &[i32],
    neigh: &[Vec<usize>],
    max_value: f64,
) -> Vec<i32> {
    let mut absorbed = labels.to_vec();
    for jl in 0..labels.len() {
        if labels[jl] != 0 {
            continue;
        }
        let mut best = None;
        let mut ep1 = max_value;
        for jn in &neigh[jl] {
            let diff = (data[jl] - data[*jn]).abs();
            if diff <= ep1 && labels[*jn] != 0 {
                ep1 = diff;
                best = Some(*jn);
            }
        }
        if let Some(jn) = best {
            absorbed[jl] = labels[jn];
        }
    }
    absorbed
}

/// Implementation of watershed algorithm as used"""))
r("component-loop", "C03", (S, """        let component_energy = source_spectra
            .energy
            .iter()
            .zip(components.0.iter())
            .map(|(e, i)| if i == &id { *e } else { 0.0 })
            .collect::<Vec<f64>>();
""", """        let (labels, _) = components;
        let mut component_energy = Vec::with_capacity(source_spectra.energy.len());
        for (e, label) in source_spectra.energy.iter().zip(labels.iter()) {
            component_energy.push(if *label == id { *e } else { 0.0 });
        }
"""))
r("split-loop", "C03", (S, """        let limit = limit.unwrap_or(components.1);

        (0..limit)
            .map(|i| Spectra::from_component(source_spectra, components, i as i32))
            .collect()
""", """        let count = match limit {
            Some(limit) => limit,
            None => components.1,
        };

        let mut spectra = Vec::new();
        for i in 0..count {
            spectra.push(Spectra::from_component(source_spectra, components, i as i32));
        }
        spectra
"""))
r("ik-reorder", "C05", (S, """        if i_upper >= self.nk() as f64 {
            return self.frequency[self.frequency.len() - 1];
        }
""", """        let count = self.frequency.len();
        if i_upper >= count as f64 {
            return self.frequency[count - 1];
        }
"""))
r("closestk-loop", "C05", (S, """        let lower = self
            .frequency
            .iter()
            .rposition(|f| f.le(&freq))
            .unwrap_or(0);
""", """        let mut lower = 0;
        for (i, f) in self.frequency.iter().enumerate() {
            if *f <= freq {
                lower = i;
            }
        }
"""))
r("interp-helper", "C05", (S, """        let d1 = self.direction[y1];
        let mut d2 = self.direction[y2];
        let mut dir = dir;
        if y2 <= y1 {
            // The next direction bin is across the wrap
            d2 += TAU;
            if dir < d1 {
                dir += TAU;
            }
        }
""", """        let d1 = self.direction[y1];
        let wraps = y2 <= y1;
        let d2 = if wraps { self.direction[y2] + TAU } else { self.direction[y2] };
        let dir = if wraps && dir < d1 { dir + TAU } else { dir };
"""))
r("oned-energy-at", "C04", (S, """                for ik in 0..nk {
                    for ith in 0..nth {
                        let i = ik + (ith * nk);
                        oned[ik] += dth[ith] * self.energy[i];
                    }
                }
""", """                for ik in 0..nk {
                    for ith in 0..nth {
                        oned[ik] += dth[ith] * self.energy_at(ik, ith);
                    }
                }
"""))
r("oned-sum", "C04", (S, """                let mut oned = vec![0.0; nth];
                for ith in 0..nth {
                    for ik in 0..nk {
                        let i = ik + (ith * nk);
                        oned[ith] += dk[ik] * self.energy[i];
                    }
                }

                oned
""", """                (0..nth)
                    .map(|ith| (0..nk).map(|ik| dk[ik] * self.energy[ik + ith * nk]).sum())
                    .collect()
"""))
r("momf-rename", "C04", (S, """        let mut moment = vec![0.0; nth];

        for ik in 0..nk {
            let fp = self.frequency[ik].powi(mom_i);
            for ith in 0..nth {
                moment[ith] += fp * self.energy_at(ik, ith) * dk[ik];
            }
        }

        moment
""", """        let mut moments = vec![0.0; nth];

        for k in 0..nk {
            let weight = self.frequency[k].powi(mom_i);
            for th in 0..nth {
                moments[th] += weight * self.energy_at(k, th) * dk[k];
            }
        }

        moments
"""))
r("momd-reorder", "C04", (S, """                moment[ik].0 += mv * ss;
                moment[ik].1 += mv * cs;
""", """                moment[ik].1 += mv * cs;
                moment[ik].0 += mv * ss;
"""))
r("range-fold", "C04", (S, """        let min = self
            .energy
            .iter()
            .min_by(|a, b| a.partial_cmp(b).unwrap())
            .unwrap();
        let max = self
            .energy
            .iter()
            .max_by(|a, b| a.partial_cmp(b).unwrap())
            .unwrap();
        (*min, *max)
""", """        let by_value = |a: &&f64, b: &&f64| a.partial_cmp(b).unwrap();
        let lowest = self.energy.iter().min_by(by_value).unwrap();
        let highest = self.energy.iter().max_by(by_value).unwrap();
        (*lowest, *highest)
"""))
r("meandir-helper", "C04", (S, """                let dm = esin.atan2(*ecos).to_degrees();
                match self.dir_convention {
                    DirectionConvention::Met => (270.0 - dm) % 360.0,
                    DirectionConvention::From => (360.0 + dm) % 360.0,
                    DirectionConvention::Towards => (180.0 + dm) % 360.0,
                }
            })
            .collect()
    }
""", """                let dm = esin.atan2(*ecos).to_degrees();
                self.mean_direction_from(dm)
            })
            .collect()
    }

    fn mean_direction_from(&self, dm: f64) -> f64 {
        let from = match self.dir_convention {
            DirectionConvention::Met => 270.0 - dm,
            DirectionConvention::From => 360.0 + dm,
            DirectionConvention::Towards => 180.0 + dm,
        };
        from % 360.0
    }
"""))
r("directiondeg-loop", "C04 C06", (S, """        self.direction
            .iter()
            .map(|d| self.dir_convention.normalize(d.to_degrees()))
            .collect()
""", """        let mut degrees = Vec::with_capacity(self.nth());
        for d in &self.direction {
            degrees.push(self.dir_convention.normalize(d.to_degrees()));
        }
        degrees
"""))
r("regrid-helper", "C06", (S, """        let mut sorted_energy = vec![0.0; nk_src * nth_src];
        for ik in 0..nk_src {
            for (new_ith, &old_ith) in sort_indices.iter().enumerate() {
                let old_idx = ik + old_ith * nk_src;
                let new_idx = ik + new_ith * nk_src;
                sorted_energy[new_idx] = self.energy[old_idx];
            }
        }
""", """        let mut sorted_energy = vec![0.0; nk_src * nth_src];
        for (new_ith, &old_ith) in sort_indices.iter().enumerate() {
            for ik in 0..nk_src {
                sorted_energy[ik + new_ith * nk_src] = self.energy[ik + old_ith * nk_src];
            }
        }
"""))
r("regrid-clamp", "C06", (S, """                let value = circular_pchip_interpolate(&sorted_dir, &values, tgt_d);
                let idx = ik_tgt + ith_tgt * nk_tgt;
                // Clamp negative values to zero
                result_energy[idx] = value.max(0.0);
""", """                // Clamp negative values to zero
                result_energy[ik_tgt + ith_tgt * nk_tgt] =
                    circular_pchip_interpolate(&sorted_dir, &values, tgt_d).max(0.0);
"""))
r("regrid-extract", "C06", (S, """                let value = if log_f < log_src_freq[0] {
                    // Below source range - zero fill
                    0.0
                } else {
                    pchip.interpolate(log_f)
                };
                freq_interp[ik_tgt + ith * nk_tgt] = value;
""", """                // Below source range stays zero filled
                if log_f >= log_src_freq[0] {
                    freq_interp[ik_tgt + ith * nk_tgt] = pchip.interpolate(log_f);
                }
"""))
r("project-loop", "C04", (S, """        map.indices
            .iter()
            .map(|idx| match idx {
                Some(i) => target[*i],
                None => f64::NAN,
            })
            .collect()
""", """        let mut projected = Vec::with_capacity(map.indices.len());
        for idx in &map.indices {
            projected.push(idx.map_or(f64::NAN, |i| target[i]));
        }
        projected
"""))
r("round-floor", "C12", (D, """    let hour = datetime.hour();
    let remainder = hour % multiplier;
    let rounded_hour = hour - remainder;
    datetime
""", """    let rounded_hour = (datetime.hour() / multiplier) * multiplier;
    datetime
"""))
r("fmrc-loop", "C12", (D, """    let mut current = round_to_nearest_multiple_hour(&start, 6);
    while current <= end {
        datetimes.push(current);
        current = current + Duration::hours(6);
    }
    datetimes
""", """    let interval = Duration::hours(6);
    let mut run = round_to_nearest_multiple_hour(&start, 6);
    loop {
        if run > end {
            break;
        }
        datetimes.push(run);
        run = run + interval;
    }
    datetimes
"""))
r("date-helper", "C12", (D, """    adjusted
        .with_minute(0)
        .unwrap()
        .with_second(0)
        .unwrap()
        .with_nanosecond(0)
        .unwrap()
}

#[cfg(test)]""", """    on_the_hour(adjusted)
}

fn on_the_hour(datetime: DateTime<Utc>) -> DateTime<Utc> {
    datetime
        .with_minute(0)
        .unwrap()
        .with_second(0)
        .unwrap()
        .with_nanosecond(0)
        .unwrap()
}

#[cfg(test)]"""))
r("date-sub", "C12", (D, """    let adjusted = *datetime + Duration::hours(-6);
    round_to_nearest_multiple_hour(&adjusted, 6)""", """    let earlier = *datetime - Duration::hours(6);
    round_to_nearest_multiple_hour(&earlier, 6)"""))
r("location-use-free", "C13", (L, """    pub fn relative_longitude(&self) -> f64 {
        if self.longitude > 180.0 {
            self.longitude - 360.0
        } else {
            self.longitude
        }
    }
""", """    pub fn relative_longitude(&self) -> f64 {
        normalize_longitude(self.longitude)
    }
"""))
r("distance-helper", "C13", (L, """        let a = (d_lat * 0.5).sin().powf(2.0)
            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powf(2.0);
        let c = 2.0 * a.sqrt().min(1.0).asin();
        let r = unit.earths_radius();

        c * r
    }
""", """        let a = haversine(d_lat) + source_lat.cos() * dest_lat.cos() * haversine(d_lon);
        let radius = unit.earths_radius();
        let central_angle = 2.0 * a.sqrt().min(1.0).asin();

        central_angle * radius
    }
"""), (L, """#[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
pub struct Location""", """fn haversine(angle: f64) -> f64 {
    (angle * 0.5).sin().powf(2.0)
}

#[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
pub struct Location"""))
r("bbox-early", "C13", (L, """        let within_lat = normalize_latitude(bbox.1) <= self.latitude
            && self.latitude <= normalize_latitude(bbox.3);
        within_lng && within_lat
""", """        let south = normalize_latitude(bbox.1);
        let north = normalize_latitude(bbox.3);
        if self.latitude < south || self.latitude > north {
            return false;
        }
        within_lng
"""))
r("opposite-range", "C11 C19", (DIR, """        let diff = (self.degrees - other.degrees).abs();
        diff >= 170 && diff <= 190
""", """        let diff = (self.degrees - other.degrees).abs();
        (170..=190).contains(&diff)
"""))
r("flip-invert", "C11", (DIR, """        let degrees = (self.degrees + 180) % 360;
        self.degrees = degrees;
        self.direction = CardinalDirection::from_degrees(&degrees);
""", """        *self = self.invert();
"""))
r("normalize-use", "C11 C04", (DIR, """        match self {
            DirectionConvention::From => dir,
            DirectionConvention::Towards => (dir + 180.0) % 360.0,
            DirectionConvention::Met => ((270.0 - dir) + 360.0) % 360.0,
        }
""", """        let turned = match self {
            DirectionConvention::From => return dir,
            DirectionConvention::Towards => dir + 180.0,
            DirectionConvention::Met => (270.0 - dir) + 360.0,
        };
        turned % 360.0
"""))
r("tounits-map", "C09", (DD, """        let new_unit = self.unit.convert_system(&new_units);
        self.value = match self.value {
            Some(value) => Some(self.unit.convert(value, &new_unit)),
            None => None,
        };
        self.unit = new_unit;
        self
""", """        let target = self.unit.convert_system(new_units);
        self.value = self.value.map(|value| self.unit.convert(value, &target));
        self.unit = target;
        self
"""))
r("convert-tuple", "C09", (U, """            Unit::Millimeters => match target {
                Unit::Meters => value * 0.001,
                Unit::Inches => value / 25.4,
                _ => value,
            },
""", """            Unit::Millimeters => {
                if *target == Unit::Meters {
                    value * 0.001
                } else if *target == Unit::Inches {
                    value / 25.4
                } else {
                    value
                }
            }
"""))
r("convert-helper", "C09", (U, """                Unit::Fahrenheit => value * (9.0 / 5.0) + 32.0,
""", """                Unit::Fahrenheit => celsius_to_fahrenheit(value),
"""), (U, """impl Unit {
    pub fn convert(&self""", """fn celsius_to_fahrenheit(value: f64) -> f64 {
    value * (9.0 / 5.0) + 32.0
}

impl Unit {
    pub fn convert(&self"""))
r("rawdata-ok", "C14", (DD, """        let parsed_value = raw_data.parse();
        DimensionalData {
            value: match parsed_value {
                Ok(val) => Some(val),
                Err(_) => None,
            },
            variable_name: variable_name,
            unit: unit,
        }
""", """        DimensionalData {
            value: raw_data.parse().ok(),
            variable_name,
            unit,
        }
"""))
r("mirror-entry", "C19", (SW, """        self.components.iter().enumerate().for_each(|(i, c)| {
            let key = c.period.to_string();
            match component_periods.get_mut(&key) {
                Some(v) => v.push(i),
                None => {
                    component_periods.insert(key, vec![i]);
                }
            };
        });
""", """        for (i, c) in self.components.iter().enumerate() {
            component_periods
                .entry(c.period.to_string())
                .or_insert_with(Vec::new)
                .push(i);
        }
"""))
r("mirror-skip", "C19", (SW, """            for i in 1..i_components.len() {
                let idx = i_components[i];
                if let""", """            for &idx in i_components.iter().skip(1) {
                if let"""))
r("filtered-loop", "C19", (SW, """        self.components
            .iter()
            .enumerate()
            .filter(|(i, _)| !false_components.contains(i))
            .map(|(_, s)| s.clone())
            .collect()
""", """        let mut kept = Vec::new();
        for (i, s) in self.components.iter().enumerate() {
            if false_components.contains(&i) {
                continue;
            }
            kept.push(s.clone());
        }
        kept
"""))
r("pchip-secant", "C07 C08", (I, """        for i in 0..n - 1 {
            h.push(x[i + 1] - x[i]);
            delta.push((y[i + 1] - y[i]) / h[i]);
        }
""", """        for i in 0..n - 1 {
            let width = x[i + 1] - x[i];
            h.push(width);
            delta.push((y[i + 1] - y[i]) / width);
        }
"""))
r("pchip-find", "C07", (I, """            let mid = (lo + hi) / 2;
            if x < self.x[mid] {
                hi = mid;
            } else {
                lo = mid;
            }
""", """            let mid = lo + (hi - lo) / 2;
            if self.x[mid] <= x {
                lo = mid;
            } else {
                hi = mid;
            }
"""))
r("pchip-slope-helper", "C07", (I, """                let w1 = 2.0 * h[i] + h[i - 1];
                let w2 = h[i] + 2.0 * h[i - 1];
                slopes[i] = (w1 + w2) / (w1 / delta[i - 1] + w2 / delta[i]);
""", """                slopes[i] = weighted_harmonic_mean(h[i - 1], h[i], delta[i - 1], delta[i]);
"""), (I, """impl PchipInterpolator {
""", """fn weighted_harmonic_mean(h_left: f64, h_right: f64, d_left: f64, d_right: f64) -> f64 {
    let w1 = 2.0 * h_right + h_left;
    let w2 = h_right + 2.0 * h_left;
    (w1 + w2) / (w1 / d_left + w2 / d_right)
}

impl PchipInterpolator {
"""))
r("circular-extend", "C08", (I, """    for &v in values {
        wrapped_val.push(v);
    }
    for &v in values {
        wrapped_val.push(v);
    }
    for &v in values {
        wrapped_val.push(v);
    }
""", """    for _ in 0..3 {
        wrapped_val.extend_from_slice(values);
    }
"""))
r("many-loop", "C07", (I, """        x_new.iter().map(|&x| self.interpolate(x)).collect()
""", """        let mut result = Vec::with_capacity(x_new.len());
        for x in x_new {
            result.push(self.interpolate(*x));
        }
        result
"""))
r("linspace-reorder", "C20", (LS, """            let i = self.index;
            self.index += 1;
            Some(self.start + self.step * F::from(i).unwrap())
""", """            let value = self.start + self.step * F::from(self.index).unwrap();
            self.index += 1;
            Some(value)
"""))
r("lerp-reorder", "C24 C05", (A, """    let diff = (x - x0) / (x1 - x0);
    a * (1.0 - diff) + (b * diff)
""", """    let fraction = (x - x0) / (x1 - x0);
    let from_a = a * (1.0 - fraction);
    let from_b = b * fraction;
    from_a + from_b
"""))
r("missing-not", "C24", (M, """    if f_eq(v, missing) {
        None
    } else {
        Some(v)
    }
""", """    let present = !f_eq(v, missing);
    present.then_some(v)
"""))
r("uv-hypot-like", "C24", (M, """    let angle = (270.0 - (v.atan2(u) * (180.0 / PI))) as i32 % 360;
    let speed = (v.abs().powi(2) + u.abs().powi(2)).sqrt();
    (speed, angle)
""", """    let heading = 270.0 - (v.atan2(u) * (180.0 / PI));
    let speed = (v * v + u * u).sqrt();
    (speed, heading as i32 % 360)
"""))
r("specrow-push", "C14", (SR, """        let mut values: Vec<f64> = vec![0.0; freq_count];
        let mut freqs: Vec<f64> = vec![0.0; freq_count];

        for i in 0..freq_count {
            let index = start_index + i * 2;

            values[i] = row[index].parse().map_err(DataRecordParsingError::from)?;
            freqs[i] = row[index + 1]
                .replace(&['(', ')'][..], "")
                .parse()
                .map_err(DataRecordParsingError::from)?;
        }
""", """        let mut values: Vec<f64> = Vec::with_capacity(freq_count);
        let mut freqs: Vec<f64> = Vec::with_capacity(freq_count);

        for i in 0..freq_count {
            let index = start_index + i * 2;

            values.push(row[index].parse().map_err(DataRecordParsingError::from)?);
            freqs.push(
                row[index + 1]
                    .replace(&['(', ')'][..], "")
                    .parse()
                    .map_err(DataRecordParsingError::from)?,
            );
        }
"""))
r("specrow-if", "C14", (SR, """        let start_index: usize = match has_sep_freq {
            true => 6,
            false => 5,
        };
""", """        let start_index: usize = if has_sep_freq { 6 } else { 5 };
"""))
r("waverow-swellhelper", "C14", (WR, """                Swell {
                    wave_height: self.swell_wave_height.clone(),
                    period: self.swell_wave_period.clone(),
                    direction: self.swell_wave_direction.clone(),
                    energy: None,
                    spectral_density: None,
                    partition: None,
                },
""", """                component(&self.swell_wave_height, &self.swell_wave_period, &self.swell_wave_direction),
"""), (WR, """impl SwellProvider for WaveDataRecord {""", """fn component(
    wave_height: &DimensionalData<f64>,
    period: &DimensionalData<f64>,
    direction: &DimensionalData<Direction>,
) -> Swell {
    Swell {
        wave_height: wave_height.clone(),
        period: period.clone(),
        direction: direction.clone(),
        energy: None,
        spectral_density: None,
        partition: None,
    }
}

impl SwellProvider for WaveDataRecord {"""))
r("buoy-missing-helper", "C27", (BS, """                if f_eq(energy_spectra[ik], 999.9)
                    || f_eq(mean_wave_direction[ik], 999.0)
                    || f_eq(primary_wave_direction[ik], 999.0)
                    || f_eq(first_polar_coefficient[ik], 999.0)
                    || f_eq(second_polar_coefficient[ik], 999.0)
                {
                    continue;
                }
""", """                let missing = f_eq(energy_spectra[ik], 999.9)
                    || f_eq(mean_wave_direction[ik], 999.0)
                    || f_eq(primary_wave_direction[ik], 999.0)
                    || f_eq(first_polar_coefficient[ik], 999.0)
                    || f_eq(second_polar_coefficient[ik], 999.0);
                if missing {
                    continue;
                }
"""))
r("buoy-loop", "C27", (BS, """        for (ik, _) in frequency.iter().enumerate() {
            for (ith, angle) in direction.iter().enumerate() {
""", """        for ik in 0..frequency.len() {
            for ith in 0..direction.len() {
                let angle = direction[ith];
"""))
r("bulletin-month-helper", "C15", (CB, """        let (year, month) = if model_date.day() > day {
            if model_date.month() == 12 {
                (model_date.year() + 1, 1)
            } else {
                (model_date.year(), model_date.month() + 1)
            }
        } else {
            (model_date.year(), model_date.month())
        };
""", """        let mut year = model_date.year();
        let mut month = model_date.month();
        if day < model_date.day() {
            month += 1;
            if month > 12 {
                month = 1;
                year += 1;
            }
        }
"""))
r("bulletin-latlon", "C15", (CB, """    if raw.contains('S') {
        Ok(-latitude)
    } else {
        Ok(latitude)
    }
""", """    let southern = raw.contains('S');
    Ok(if southern { -latitude } else { latitude })
"""))
r("bulletin-while", "C15", (CB, """        for i in (2..row.len()).step_by(3) {
""", """        let component_count = (row.len() - 2) / 3;
        for n in 0..component_count {
            let i = 2 + n * 3;
"""))
r("tide-find", "C26", (TS, """        match self
            .stations
            .iter()
            .position(|x| x.station_id == station_id)
        {
            Some(index) => Some(self.stations[index].clone()),
            _ => None,
        }
""", """        self.stations
            .iter()
            .find(|x| x.station_id == station_id)
            .cloned()
"""))
r("ptmean-sums", "C17", (W, """            if ip < 1 {
                continue;
            }

            sumf[ik][ip as usize] += energy[isp];
            sumfw[ik][ip as usize] += energy[isp] * fact;
            sumfx[ik][ip as usize] += energy[isp] * ecos[ith];
            sumfy[ik][ip as usize] += energy[isp] * esin[ith];
""", """            if ip >= 1 {
                let ip = ip as usize;
                sumf[ik][ip] += energy[isp];
                sumfw[ik][ip] += energy[isp] * fact;
                sumfx[ik][ip] += energy[isp] * ecos[ith];
                sumfy[ik][ip] += energy[isp] * esin[ith];
            }
"""))
r("ptmean-nk", "C17", (W, """    let c = (0..frequency.len())
        .map(|i| sig[i + 1] / wn[i])
        .collect::<Vec<f64>>();
""", """    let mut c = Vec::with_capacity(frequency.len());
    for i in 0..frequency.len() {
        c.push(sig[i + 1] / wn[i]);
    }
"""))
r("track-score", "C18", (W, """                        let score = if dir_delta > max_dir_delta as i32 {
                            999.99
                        } else {
                            (dir_delta as f64 / max_dir_delta).abs()
                                + (period_delta / dfp_swell).abs()
                        }
                        .abs();
                        (icp, ipp, score)
""", """                        if dir_delta > max_dir_delta as i32 {
                            return (icp, ipp, 999.99);
                        }
                        let dir_score = (dir_delta as f64 / max_dir_delta).abs();
                        let period_score = (period_delta / dfp_swell).abs();
                        (icp, ipp, (dir_score + period_score).abs())
"""))
r("track-count", "C18", (W, """    let mut partition_count = partition_map[0].iter().map(|(ip, _)| ip + 1).max().unwrap_or(0);
""", """    let first_ids = &partition_map[0];
    let mut partition_count = first_ids.iter().map(|(id, _)| id + 1).max().unwrap_or(0);
"""))

FS = "src/data/forecast_spectral_wave_data_record.rs"; CT = "src/tools/contour.rs"; SO = "src/solar.rs"; TR = "src/data/tidal_data_record.rs"
r("waverecords-match", "C14", (WR, """                if let Ok(record) = result {
                    let filtered_record: Vec<&str> =
                        record.iter().filter(|data| !data.is_empty()).collect();
                    let mut wave_data = WaveDataRecord::from_data_row(None, &filtered_record)?;
                    wave_data.to_units(&UnitSystem::Metric);
                    return Ok(wave_data);
                }
                Err(DataRecordParsingError::InvalidData)
            })
            .filter_map(|d| d.ok())""", """                let Ok(record) = result else {
                    return Err(DataRecordParsingError::InvalidData);
                };
                let mut filtered_record: Vec<&str> = Vec::new();
                for field in record.iter() {
                    if !field.is_empty() {
                        filtered_record.push(field);
                    }
                }
                let mut wave_data = WaveDataRecord::from_data_row(None, &filtered_record)?;
                wave_data.to_units(&UnitSystem::Metric);
                Ok(wave_data)
            })
            .filter_map(|d| d.ok())"""))
r("waverecords-filtermap", "C14", (WR, """            .map(|result| -> Result<WaveDataRecord, DataRecordParsingError> {
                if let Ok(record) = result {
                    let filtered_record: Vec<&str> =
                        record.iter().filter(|data| !data.is_empty()).collect();
                    let mut wave_data = WaveDataRecord::from_data_row(None, &filtered_record)?;
                    wave_data.to_units(&UnitSystem::Metric);
                    return Ok(wave_data);
                }
                Err(DataRecordParsingError::InvalidData)
            })
            .filter_map(|d| d.ok())""", """            .filter_map(|result| {
                let record = result.ok()?;
                let filtered_record: Vec<&str> =
                    record.iter().filter(|data| !data.is_empty()).collect();
                let mut wave_data = WaveDataRecord::from_data_row(None, &filtered_record).ok()?;
                wave_data.to_units(&UnitSystem::Metric);
                Some(wave_data)
            })"""))
r("waverecords-helper", "C14", (WR, """                if let Ok(record) = result {
                    let filtered_record: Vec<&str> =
                        record.iter().filter(|data| !data.is_empty()).collect();
                    let mut wave_data = WaveDataRecord::from_data_row(None, &filtered_record)?;
                    wave_data.to_units(&UnitSystem::Metric);
                    return Ok(wave_data);
                }
                Err(DataRecordParsingError::InvalidData)
            })
            .filter_map(|d| d.ok())
    }""", """                match result {
                    Ok(record) => Self::parse_row(&record),
                    Err(_) => Err(DataRecordParsingError::InvalidData),
                }
            })
            .filter_map(|d| d.ok())
    }

    fn parse_row(record: &csv::StringRecord) -> Result<WaveDataRecord, DataRecordParsingError> {
        let filtered_record: Vec<&str> =
            record.iter().filter(|data| !data.is_empty()).collect();
        let mut wave_data = WaveDataRecord::from_data_row(None, &filtered_record)?;
        wave_data.to_units(&UnitSystem::Metric);
        Ok(wave_data)
    }"""))
r("specrecords-flat", "C14 C16", (SR, """            .filter_map(|d| d.ok())
    }""", """            .filter_map(Result::ok)
    }"""))
r("specrecords-rename", "C14 C16", (SR, """                            let mut met_data =
                                SpectralWaveDataRecord::from_data_row(None, &filtered_record)?;
                            met_data.to_units(&UnitSystem::Metric);
                            Ok(met_data)""", """                            SpectralWaveDataRecord::from_data_row(None, &filtered_record).map(
                                |mut parsed| {
                                    parsed.to_units(&UnitSystem::Metric);
                                    parsed
                                },
                            )"""))
r("bulletinrecords-meta", "C15", (CB, """        let metadata = self.data.parse::<ForecastCBulletinWaveRecordMetadata>()?;
        let metadata_clone = metadata.clone();
        let records = self""", """        let parsed = ForecastCBulletinWaveRecordMetadata::from_str(self.data)?;
        let metadata = parsed.clone();
        let metadata_clone = parsed;
        let records = self"""))
r("bulletinrecords-early", "C15", (CB, """                    match result {
                        Ok(record) => {
                            let filtered_record: Vec<&str> =
                                record.iter().filter(|data| !data.is_empty()).collect();
                            let mut wave_data = ForecastCBulletinWaveRecord::from_data_row(
                                Some(&metadata),
                                &filtered_record,
                            )?;
                            wave_data.to_units(&UnitSystem::Metric);
                            Ok(wave_data)
                        }
                        Err(e) => Err(DataRecordParsingError::ParseFailure(format!(
                            "Failed to parse record: {}",
                            e
                        ))),
                    }
                },""", """                    let record = result.map_err(|e| {
                        DataRecordParsingError::ParseFailure(format!(
                            "Failed to parse record: {}",
                            e
                        ))
                    })?;
                    let filtered_record: Vec<&str> =
                        record.iter().filter(|data| !data.is_empty()).collect();
                    let mut wave_data = ForecastCBulletinWaveRecord::from_data_row(
                        Some(&metadata),
                        &filtered_record,
                    )?;
                    wave_data.to_units(&UnitSystem::Metric);
                    Ok(wave_data)
                },"""))
r("fcstrecords-q", "C16", (FS, """        match ForecastSpectralWaveRecordIterator::from_data(self.data) {
            Ok(iter) => Ok((iter.metadata.clone(), iter.filter_map(|d| d.ok()))),
            Err(e) => Err(e),
        }""", """        let iter = ForecastSpectralWaveRecordIterator::from_data(self.data)?;
        let metadata = iter.metadata.clone();
        Ok((metadata, iter.filter_map(|d| d.ok())))"""))
r("fcstnext-flat", "C16", (FS, """            Err(e) => match e {
                DataRecordParsingError::EOF => None,
                _ => Some(Err(e)),
            },""", """            Err(DataRecordParsingError::EOF) => None,
            Err(e) => Some(Err(e)),"""))
r("tidal-match", "C28", (TR, """        Value::Number(num) => num.as_f64().ok_or(de::Error::custom("Invalid f64"))? as f64,""", """        Value::Number(num) => match num.as_f64() {
            Some(v) => v,
            None => return Err(de::Error::custom("Invalid f64")),
        },"""))
r("tidal-date", "C28", (TR, """    let naive = NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M").map_err(de::Error::custom)?;
    Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc))""", """    match NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M") {
        Ok(naive) => Ok(naive.and_utc()),
        Err(e) => Err(de::Error::custom(e)),
    }"""))
r("solar-and", "C30", (SO, """    if sunrise >= sunset {
        return None;
    }

    Some(SolarEvents { sunrise, sunset })""", """    if sunrise < sunset {
        Some(SolarEvents { sunrise, sunset })
    } else {
        None
    }"""))
r("solar-q", "C30", (SO, """    let Some(coordinates) = location.into() else {
        return None;
    };
""", """    let coordinates: Option<Coordinates> = location.into();
    let coordinates = coordinates?;
"""))
r("contour-first", "C31", (CT, """    let threshold_range = thresholds.last().unwrap() - thresholds.first().unwrap();
""", """    let lowest = thresholds.first().unwrap();
    let threshold_range = thresholds.last().unwrap() - lowest;
"""), (CT, """                (&c.threshold() - thresholds.first().unwrap()) / threshold_range,""", """                (c.threshold() - lowest) / threshold_range,"""))
r("contour-match", "C31", (CT, """            if coordinate_transform.is_none() {
                return f;
            }

            let coordinate_transform = coordinate_transform.as_ref().unwrap();
""", """            let Some(coordinate_transform) = coordinate_transform.as_ref() else {
                return f;
            };
"""))
r("contour-wrap-loop", "C31", (CT, """        let data = data
            .iter()
            .enumerate()
            .flat_map(|(i, v)| {
                let lng_index = i % lng_count;
                if lng_index == lng_count - 1 {
                    let lat_index = i / lng_count;
                    Either::Left([*v, *(&data[lat_index * lng_count])].into_iter())
                } else {
                    Either::Right(std::iter::once(*v))
                }
            })
            .collect();""", """        let mut wrapped = Vec::with_capacity(data.len() + lat_count);
        for (i, v) in data.iter().enumerate() {
            wrapped.push(*v);
            if i % lng_count == lng_count - 1 {
                wrapped.push(data[(i / lng_count) * lng_count]);
            }
        }
        let data = wrapped;"""), (CT, "use itertools::Either;\n", ""))
r("contour-scale-let", "C31", (CT, """            let x = lng_start + (lng_end - lng_start) * (point[0] / (lng_count as f64));
            let y = lat_start + (lat_end - lat_start) * (point[1] / (lat_count as f64));
            vec![x, y]""", """            let across = point[0] / (lng_count as f64);
            let up = point[1] / (lat_count as f64);
            vec![
                lng_start + (lng_end - lng_start) * across,
                lat_start + (lat_end - lat_start) * up,
            ]"""))

SD = "src/data/swden_wave_data_record.rs"; NM = "src/model/noaa_model.rs"; MR = "src/data/meteorological_data_record.rs"; CD = "src/units/cardinal_direction.rs"
r("swden-push", "C34", (SD, """        let mut energy_spectra: Vec<f64> = vec![0.0; self.frequency.len()];
        let mut mean_wave_direction: Vec<f64> = vec![0.0; self.frequency.len()];
        let mut primary_wave_direction: Vec<f64> = vec![0.0; self.frequency.len()];
        let mut first_polar_coefficient: Vec<f64> = vec![0.0; self.frequency.len()];
        let mut second_polar_coefficient: Vec<f64> = vec![0.0; self.frequency.len()];

        for i in 0..self.frequency.len() {
            let (e, m, p, f, s) = self.iter.next()?;
            energy_spectra[i] = e;
            mean_wave_direction[i] = m;
            primary_wave_direction[i] = p;
            first_polar_coefficient[i] = f;
            second_polar_coefficient[i] = s;
        }
""", """        let count = self.frequency.len();
        let mut energy_spectra: Vec<f64> = Vec::with_capacity(count);
        let mut mean_wave_direction: Vec<f64> = Vec::with_capacity(count);
        let mut primary_wave_direction: Vec<f64> = Vec::with_capacity(count);
        let mut first_polar_coefficient: Vec<f64> = Vec::with_capacity(count);
        let mut second_polar_coefficient: Vec<f64> = Vec::with_capacity(count);

        for _ in 0..count {
            let (e, m, p, f, s) = self.iter.next()?;
            energy_spectra.push(e);
            mean_wave_direction.push(m);
            primary_wave_direction.push(p);
            first_polar_coefficient.push(f);
            second_polar_coefficient.push(s);
        }
"""))
r("swden-date-last", "C34", (SD, """        let date = self.dates[self.current];
        let frequency = self.frequency.clone();
        self.current += 1;

        Some(SwdenWaveDataRecord {
            date,
            frequency,""", """        let index = self.current;
        self.current = index + 1;

        Some(SwdenWaveDataRecord {
            date: self.dates[index],
            frequency: self.frequency.clone(),"""))
r("swden-into", "C34", (SD, """            (
                TryInto::<f64>::try_into(e).unwrap(),
                TryInto::<f64>::try_into(m).unwrap(),
                TryInto::<f64>::try_into(p).unwrap(),
                TryInto::<f64>::try_into(f).unwrap(),
                TryInto::<f64>::try_into(s).unwrap(),
            )
        });""", """            let energy: f64 = e.try_into().unwrap();
            let mean: f64 = m.try_into().unwrap();
            let primary: f64 = p.try_into().unwrap();
            let first: f64 = f.try_into().unwrap();
            let second: f64 = s.try_into().unwrap();
            (energy, mean, primary, first, second)
        });"""))
r("stdmet-dates-collect", "C34", (MR, """        let dates = self
            .dates
            .iter()
            .map(|t| DateTime::from_timestamp(*t, 0).unwrap());""", """        let dates = self.dates.iter().map(|seconds| {
            let date = DateTime::from_timestamp(*seconds, 0);
            date.unwrap()
        });"""))
r("met-helper", "C14", (MR, """                    match result {
                        Ok(record) => {
                            let filtered_record: Vec<&str> =
                                record.iter().filter(|data| !data.is_empty()).collect();
                            let mut met_data =
                                MeteorologicalDataRecord::from_data_row(None, &filtered_record)?;
                            met_data.to_units(&UnitSystem::Metric);
                            Ok(met_data)
                        }
                        Err(e) => Err(DataRecordParsingError::ParseFailure(e.to_string())),
                    }""", """                    let record = match result {
                        Ok(record) => record,
                        Err(e) => return Err(DataRecordParsingError::ParseFailure(e.to_string())),
                    };
                    let cells: Vec<&str> = record.iter().filter(|c| !c.is_empty()).collect();
                    let mut met_data = MeteorologicalDataRecord::from_data_row(None, &cells)?;
                    met_data.to_units(&UnitSystem::Metric);
                    Ok(met_data)"""))
r("grid-bbox-helper", "C33", (NM, """        let (row, col) = grid_position(location, start, end, lat_size, lng_size);
        let lng_index = col.round() as usize;
        let lat_index = row.round() as usize;

        let data = message.data()?;
        let latlng_index = lng_index + lng_size * lat_index;
        let value = data[latlng_index];
        Ok(value)""", """        let data = message.data()?;
        let (row, col) = grid_position(location, start, end, lat_size, lng_size);
        let (lat_index, lng_index) = (row.round() as usize, col.round() as usize);
        Ok(data[lat_index * lng_size + lng_index])"""))
r("grid-interp-match", "C33", (NM, """        let value = if lat_lower_index == lat_upper_index && lng_lower_index == lng_upper_index {
            a
        } else if lat_lower_index == lat_upper_index {
            lerp(&a, &b, &col, &x0, &x1)
        } else if lng_lower_index == lng_upper_index {
            lerp(&a, &c, &row, &y0, &y1)
        } else {
            bilerp(
                &a,
                &b,
                &c,
                &d,
                &col,
                &x0,
                &x1,
                &row,
                &y0,
                &y1,
            )
        };

        Ok(value)""", """        let same_row = lat_lower_index == lat_upper_index;
        let same_col = lng_lower_index == lng_upper_index;
        Ok(match (same_row, same_col) {
            (true, true) => a,
            (true, false) => lerp(&a, &b, &col, &x0, &x1),
            (false, true) => lerp(&a, &c, &row, &y0, &y1),
            (false, false) => bilerp(&a, &b, &c, &d, &col, &x0, &x1, &row, &y0, &y1),
        })"""))
r("grid-tolerance-one-filter", "C33", (NM, """            .filter(|(_, v)| !v.is_nan())
            .filter(|(i, _)| {
                let row = i / lng.len();
                let col = i % lng.len();

                let east = degrees_east(location.longitude, lng[col]);
                normalize_latitude(lat[row]) >= min_lat
                    && normalize_latitude(lat[row]) <= max_lat
                    && (east <= *tolerance || 360.0 - east <= *tolerance)
            })""", """            .filter(|(i, v)| {
                let row = i / lng.len();
                let col = i % lng.len();

                let lat = normalize_latitude(lat[row]);
                let east = degrees_east(location.longitude, lng[col]);
                !v.is_nan()
                    && lat >= min_lat
                    && lat <= max_lat
                    && (east <= *tolerance || 360.0 - east <= *tolerance)
            })"""))
r("grid-degrees-rem", "C33", (NM, """    let degrees = absolute_longitude(to) - absolute_longitude(from);
    if degrees < 0.0 {
        degrees + 360.0
    } else {
        degrees
    }""", """    let (from, to) = (absolute_longitude(from), absolute_longitude(to));
    if to < from {
        (to - from) + 360.0
    } else {
        to - from
    }"""))
r("model-hours", "C22", (NM, """                if index <= *cutoff {
                    index
                } else {
                    cutoff + (index - cutoff) * 3
                }""", """                if index > *cutoff {
                    cutoff + 3 * (index - cutoff)
                } else {
                    index
                }"""))
r("model-source-match", "C22", (NM, """        if lowered.contains("aws") || lowered.contains("amazon") {
            Ok(ModelDataSource::NODDAWS)
        } else if lowered.contains("gcp")""", """        let on_aws = lowered.contains("amazon") || lowered.contains("aws");
        if on_aws {
            Ok(ModelDataSource::NODDAWS)
        } else if lowered.contains("gcp")"""))
r("cart-map-let", "C29", (S, """            .map(|idx| match idx {
                Some(i) => target[*i],
                None => f64::NAN,
            })""", """            .map(|idx| idx.map(|i| target[i]).unwrap_or(f64::NAN))"""))
r("cart-map-if", "C29", (S, """                if periods[*ik] > period_threshold {
                    return;
                }

                let r =
                    ((size / 2) as f64) * (periods[*ik].powf(exp_scale) / period_scale_threshold);
                let t = (directions[*ith] + 270.0) % 360.0;
                let x = (origin.0 as f64) + (r * t.to_radians().cos());
                let y = (origin.1 as f64) + (r * t.to_radians().sin());
                let p = [x, y];
                let _ = kdtree.add(p, i);""", """                let period = periods[*ik];
                if period > period_threshold {
                    return;
                }

                let half = (size / 2) as f64;
                let r = half * (period.powf(exp_scale) / period_scale_threshold);
                let t = ((directions[*ith] + 270.0) % 360.0).to_radians();
                let (x, y) = (half + r * t.cos(), half + r * t.sin());
                let _ = kdtree.add([x, y], i);"""))
r("contoured-let", "C29 C31", (S, """                let x = 1.0 / self.ik(point[0] - 0.5);
                let y = self
                    .dir_convention
                    .normalize(self.ith(point[1] - 0.5).to_degrees());
                vec![x, y]""", """                let frequency = self.ik(point[0] - 0.5);
                let direction = self.ith(point[1] - 0.5).to_degrees();
                vec![1.0 / frequency, self.dir_convention.normalize(direction)]"""))
r("direction-show", "C32", (DIR, """        write!(
            f,
            "{}{} {}",
            self.degrees,
            Unit::Degrees.abbreviation(),
            self.direction
        )""", """        let unit = Unit::Degrees.abbreviation();
        write!(f, "{}{} {}", self.degrees, unit, self.direction)"""))

def one(t):
    id_, checks, edits = t
    w = tempfile.mkdtemp(prefix="refac."); out = []
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        for f, a, b in edits:
            p = f"{w}/repo/{f}"; s = open(p).read()
            if s.count(a) != 1: return f"{id_}: EDIT DOES NOT APPLY ({s.count(a)}) {f}"
            open(p, "w").write(s.replace(a, b))
        subprocess.run(["cp", "-a", "/verif", w + "/verif"], check=True)
        for c in checks:
            p = subprocess.run(["python3", "check.py", c], cwd=w + "/verif", env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_TIER="quick", VERIF_SEED="1"), capture_output=True, text=True)
            lines = [l for l in (p.stdout + p.stderr).splitlines() if any(k in l for k in ("VIOLATION", "undecided", "obligation failed", "failing input", "error", "does not build"))]
            out.append(f"{id_} {c} exit={p.returncode} " + (" | ".join(l[:300] for l in lines) or "proved"))
    finally: shutil.rmtree(w)
    return "\n".join(out)
if __name__ == "__main__":
    a = sys.argv[1:]; j = 2
    if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
    with ThreadPoolExecutor(j) as ex:
        for o in ex.map(one, [t for t in R if not a or t[0] in a]): print(o, flush=True)
