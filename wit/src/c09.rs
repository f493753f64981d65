use crate::core::*;
use crate::ensure;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::{Swell, SwellSummary};
use surfrs::units::*;

pub fn units() -> Vec<Unit> {
    use Unit::*;
    vec![Millimeters, Meters, MetersPerSecond, Celsius, Pascal, HectaPascal, Inches, Feet, MilesPerHour, Fahrenheit, InchesMercury,
        Knots, Kelvin, MetersSquaredPerHertz, NauticalMiles, Degrees, Seconds, Percent, KiloJoules, Unknown]
}
pub fn systems() -> Vec<UnitSystem> { vec![UnitSystem::Metric, UnitSystem::English, UnitSystem::Knots, UnitSystem::Kelvin] }

/// (quantity, size of one unit in SI, offset to SI)
fn si(u: &Unit) -> Option<(u8, f64, f64)> {
    Some(match u {
        Unit::Millimeters => (0, 0.001, 0.0), Unit::Meters => (0, 1.0, 0.0), Unit::Inches => (0, 0.0254, 0.0), Unit::Feet => (0, 0.3048, 0.0),
        Unit::MetersPerSecond => (1, 1.0, 0.0), Unit::MilesPerHour => (1, 0.44704, 0.0), Unit::Knots => (1, 1852.0 / 3600.0, 0.0),
        Unit::Celsius => (2, 1.0, 273.15), Unit::Kelvin => (2, 1.0, 0.0), Unit::Fahrenheit => (2, 5.0 / 9.0, 459.67 * 5.0 / 9.0),
        Unit::Pascal => (3, 1.0, 0.0), Unit::HectaPascal => (3, 100.0, 0.0), Unit::InchesMercury => (3, 3386.3886, 0.0),
        _ => return None,
    })
}
/// the pairs the library converts (anything else leaves the number alone)
pub fn supported(u: &Unit, t: &Unit) -> bool {
    use Unit::*;
    matches!((u, t), (Millimeters, Meters | Inches) | (Meters, Millimeters | Feet) | (MetersPerSecond, MilesPerHour | Knots) | (Celsius, Fahrenheit | Kelvin)
        | (Pascal, HectaPascal) | (HectaPascal, Pascal | InchesMercury) | (Inches, Feet | Millimeters) | (Feet, Inches | Meters)
        | (MilesPerHour, MetersPerSecond | Knots) | (Fahrenheit, Celsius | Kelvin) | (InchesMercury, HectaPascal) | (Knots, MetersPerSecond | MilesPerHour) | (Kelvin, Celsius | Fahrenheit))
}
pub fn ok(u: &Unit, t: &Unit, v: f64, r: f64) -> bool {
    if u == t || !supported(u, t) { return r == v || (r.is_nan() && v.is_nan()); }
    let (a, b) = (si(u).unwrap(), si(t).unwrap());
    let e = (v * a.1 + a.2 - b.2) / b.1;
    if a.0 == 2 { (r - e).abs() <= 1e-9 * (1.0 + e.abs()) } else { (r - e).abs() <= 0.00101 * e.abs() + 1e-300 }
}
pub fn sys_unit(u: &Unit, s: &UnitSystem) -> Unit {
    use Unit::*;
    match (u, s) {
        (Millimeters, UnitSystem::English) => Inches, (Meters, UnitSystem::English) => Feet,
        (MetersPerSecond, UnitSystem::English) => MilesPerHour, (MetersPerSecond, UnitSystem::Knots) => Knots,
        (Celsius, UnitSystem::English) => Fahrenheit, (Celsius, UnitSystem::Kelvin) => Kelvin,
        (HectaPascal, UnitSystem::English) => InchesMercury, (Inches, UnitSystem::Metric) => Millimeters, (Feet, UnitSystem::Metric) => Meters,
        (MilesPerHour, UnitSystem::Metric) => MetersPerSecond, (MilesPerHour, UnitSystem::Knots) => Knots,
        (Fahrenheit, UnitSystem::Metric) => Celsius, (Fahrenheit, UnitSystem::Kelvin) => Kelvin, (InchesMercury, UnitSystem::Metric) => HectaPascal,
        (Knots, UnitSystem::Metric) => MetersPerSecond, (Knots, UnitSystem::English) => MilesPerHour,
        (Kelvin, UnitSystem::Metric) => Celsius, (Kelvin, UnitSystem::English) => Fahrenheit,
        (u, _) => u.clone(),
    }
}
pub fn dd_ok(a: &DimensionalData<f64>, b: &DimensionalData<f64>, s: &UnitSystem) -> Result<(), String> {
    ensure!(b.unit == sys_unit(&a.unit, s), "{}: unit {:?} -> {:?} under {s:?}", a.variable_name, a.unit, b.unit);
    ensure!(a.variable_name == b.variable_name, "name {} -> {}", a.variable_name, b.variable_name);
    match (a.value, b.value) {
        (None, None) => Ok(()),
        (Some(v), Some(w)) => { ensure!(ok(&a.unit, &b.unit, v, w), "{}: {v} {:?} -> {w} {:?}", a.variable_name, a.unit, b.unit); Ok(()) }
        x => Err(format!("{}: {x:?}", a.variable_name)),
    }
}
pub fn value(c: &mut Ctx) -> f64 {
    match c.rng.below(10) {
        0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => c.rng.fr(-1e6, 1e6), 4 => c.rng.fr(0.0, 1.0), 5 => 1e12 * c.rng.f(), 6 => -c.rng.fr(0.0, 500.0),
        7 => 10f64.powf(c.rng.fr(-12.0, 12.0)), _ => c.rng.fr(0.0, 400.0),
    }
}
pub fn dd(c: &mut Ctx, us: &[Unit], name: &str) -> DimensionalData<f64> {
    let v = value(c);
    DimensionalData { value: if c.rng.chance(0.15) { None } else { Some(v) }, variable_name: name.into(), unit: c.rng.pick(us).clone() }
}
pub fn dirdd(c: &mut Ctx) -> DimensionalData<Direction> {
    DimensionalData { value: if c.rng.chance(0.15) { None } else { Some(Direction::from_degrees(c.rng.range(0, 360) as i32)) }, variable_name: "d".into(), unit: Unit::Degrees }
}
pub fn swell(c: &mut Ctx) -> Swell {
    let hs = [Unit::Meters, Unit::Feet, Unit::Unknown];
    Swell {
        wave_height: dd(c, &hs, "wave height"), period: dd(c, &[Unit::Seconds], "period"), direction: dirdd(c),
        energy: if c.rng.chance(0.5) { Some(dd(c, &[Unit::KiloJoules], "energy")) } else { None },
        spectral_density: if c.rng.chance(0.5) { Some(dd(c, &[Unit::MetersSquaredPerHertz], "density")) } else { None },
        partition: if c.rng.chance(0.5) { Some(c.rng.below(9)) } else { None },
    }
}
pub fn dir_ok(a: &DimensionalData<Direction>, b: &DimensionalData<Direction>, s: &UnitSystem) -> Result<(), String> {
    ensure!(b.unit == sys_unit(&a.unit, s) && a.value.as_ref().map(|d| d.degrees) == b.value.as_ref().map(|d| d.degrees), "{a:?} -> {b:?}");
    Ok(())
}
pub fn swell_ok(a: &Swell, b: &Swell, s: &UnitSystem) -> Result<(), String> {
    dd_ok(&a.wave_height, &b.wave_height, s)?;
    dir_ok(&a.direction, &b.direction, s)?;
    let same = |x: &DimensionalData<f64>, y: &DimensionalData<f64>| x.value == y.value && x.unit == y.unit;
    let so = |x: &Option<DimensionalData<f64>>, y: &Option<DimensionalData<f64>>| match (x, y) { (None, None) => true, (Some(x), Some(y)) => same(x, y), _ => false };
    ensure!(same(&a.period, &b.period) && so(&a.energy, &b.energy) && so(&a.spectral_density, &b.spectral_density) && a.partition == b.partition, "other fields changed: {a:?} -> {b:?}");
    Ok(())
}
pub fn run(c: &mut Ctx) {
    c.rule = "every (unit, unit) pair and (unit, system) pair with many magnitudes, then records with random units and missing values; non-trivial: the unit changes".into();
    let us = units();
    c.exhaustive.push("all 400 unit pairs and 80 (unit, system) pairs".into());
    for u in &us {
        for s in systems() {
            c.case("system", format!("{u:?}.convert_system({s:?})"), sys_unit(u, &s) != *u, || {
                let r = u.convert_system(&s);
                ensure!(r == sys_unit(u, &s), "got {r:?}, expected {:?}", sys_unit(u, &s));
                Ok(())
            });
        }
        for t in &us {
            for _ in 0..c.n(40, 600) {
                let v = value(c);
                c.case("convert", format!("{u:?}.convert({v:?}, {t:?})"), supported(u, t), || {
                    let r = u.convert(v, t);
                    ensure!(ok(u, t, v, r), "got {r:?}");
                    if supported(u, t) && supported(t, u) {
                        let x = t.convert(r, u);
                        ensure!((x - v).abs() <= 0.0025 * v.abs() + 1e-9, "there and back: {x:?}");
                    }
                    Ok(())
                });
            }
        }
    }
    for _ in 0..c.n(4000, 60000) {
        if c.over() { break; }
        let s = c.rng.pick(&systems()).clone();
        let a = dd(c, &us, "q");
        c.case("quantity", format!("{a:?} to {s:?}"), sys_unit(&a.unit, &s) != a.unit, || { let mut b = a.clone(); let r = b.to_units(&s).clone(); dd_ok(&a, &r, &s)?; dd_ok(&a, &b, &s) });
        let v = c.rng.range(-4000, 4000);
        let i = DimensionalData::<i64> { value: if c.rng.chance(0.1) { None } else { Some(v) }, variable_name: "i".into(), unit: c.rng.pick(&us).clone() };
        c.case("integer quantity", format!("{i:?} to {s:?}"), sys_unit(&i.unit, &s) != i.unit, || {
            let mut b = i.clone();
            b.to_units(&s);
            ensure!(b.unit == sys_unit(&i.unit, &s) && b.value.is_some() == i.value.is_some(), "got {b:?}");
            if let (Some(x), Some(y)) = (i.value, b.value) {
                if b.unit == i.unit { ensure!(x == y, "got {b:?}"); }
                else {
                    let (p, q) = (si(&i.unit).unwrap(), si(&b.unit).unwrap());
                    let e = (x as f64 * p.1 + p.2 - q.2) / q.1;
                    ensure!((y as f64 - e).abs() <= 1.0 + 1e-3 * e.abs(), "expected about {e}, got {b:?}");
                }
            }
            Ok(())
        });
        let w = swell(c);
        c.case("swell", format!("{w:?} to {s:?}"), true, || { let mut b = w.clone(); b.to_units(&s); swell_ok(&w, &b, &s) });
        let n = c.rng.below(6);
        let y = SwellSummary { summary: swell(c), components: (0..n).map(|_| swell(c)).collect() };
        c.case("summary", format!("{y:?} to {s:?}"), true, || {
            let mut b = y.clone();
            b.to_units(&s);
            swell_ok(&y.summary, &b.summary, &s)?;
            ensure!(b.components.len() == y.components.len(), "component count changed");
            for (p, q) in y.components.iter().zip(&b.components) { swell_ok(p, q, &s)?; }
            Ok(())
        });
        records(c, &s);
    }
}
fn records(c: &mut Ctx, s: &UnitSystem) {
    use chrono::{TimeZone, Utc};
    use surfrs::data::{forecast_cbulletin_wave_data_record::*, forecast_spectral_wave_data_record::*, wave_data_record::*};
    let date = Utc.with_ymd_and_hms(2020, 1, 2, 3, 4, 0).unwrap();
    let (l, t, v) = ([Unit::Meters, Unit::Feet], [Unit::Seconds], [Unit::MetersPerSecond, Unit::Knots, Unit::MilesPerHour]);
    let a = WaveDataRecord { date, wave_height: dd(c, &l, "a"), swell_wave_height: dd(c, &l, "b"), swell_wave_period: dd(c, &t, "c"), wind_wave_height: dd(c, &l, "d"),
        wind_wave_period: dd(c, &t, "e"), swell_wave_direction: dirdd(c), wind_wave_direction: dirdd(c), steepness: Steepness::Steep, average_wave_period: dd(c, &t, "f"), mean_wave_direction: dirdd(c) };
    c.case("wave record", format!("{a:?} to {s:?}"), true, || {
        let mut b = a.clone();
        b.to_units(s);
        for (p, q) in [(&a.wave_height, &b.wave_height), (&a.swell_wave_height, &b.swell_wave_height), (&a.swell_wave_period, &b.swell_wave_period),
            (&a.wind_wave_height, &b.wind_wave_height), (&a.wind_wave_period, &b.wind_wave_period), (&a.average_wave_period, &b.average_wave_period)] { dd_ok(p, q, s)?; }
        for (p, q) in [(&a.swell_wave_direction, &b.swell_wave_direction), (&a.wind_wave_direction, &b.wind_wave_direction), (&a.mean_wave_direction, &b.mean_wave_direction)] { dir_ok(p, q, s)?; }
        ensure!(a.date == b.date && a.steepness == b.steepness, "date or steepness changed");
        Ok(())
    });
    let n = c.rng.below(5);
    let a = ForecastCBulletinWaveRecord { date, significant_wave_height: dd(c, &l, "h"), swell_components: (0..n).map(|_| swell(c)).collect() };
    c.case("bulletin record", format!("{a:?} to {s:?}"), true, || {
        let mut b = a.clone();
        b.to_units(s);
        dd_ok(&a.significant_wave_height, &b.significant_wave_height, s)?;
        ensure!(a.swell_components.len() == b.swell_components.len() && a.date == b.date, "shape changed");
        for (p, q) in a.swell_components.iter().zip(&b.swell_components) { swell_ok(p, q, s)?; }
        Ok(())
    });
    let a = ForecastSpectralWaveDataRecord { date, reference_date: date, location: surfrs::location::Location::new(1.0, 2.0, "x".into()), depth: dd(c, &l, "depth"), wind_speed: dd(c, &v, "wind"),
        wind_direction: dirdd(c), current_speed: dd(c, &v, "current"), current_direction: dirdd(c),
        spectra: surfrs::spectra::Spectra::new(vec![0.1, 0.2], vec![0.0, 1.0], vec![1.0; 4], direction::DirectionConvention::From) };
    c.case("spectral record", format!("depth {:?} wind {:?} current {:?} to {s:?}", a.depth, a.wind_speed, a.current_speed), true, || {
        let mut b = a.clone();
        b.to_units(s);
        dd_ok(&a.depth, &b.depth, s)?;
        dd_ok(&a.wind_speed, &b.wind_speed, s)?;
        dd_ok(&a.current_speed, &b.current_speed, s)?;
        ensure!(a.date == b.date && a.reference_date == b.reference_date && a.spectra.energy == b.spectra.energy, "date or spectrum changed");
        dir_ok(&a.wind_direction, &b.wind_direction, s)?;
        dir_ok(&a.current_direction, &b.current_direction, s)
    });
}
