use crate::core::*;
use crate::ensure;
use surfrs::data::parseable_data_record::DataRecordParsingError;
use surfrs::dimensional_data::DimensionalData;
use surfrs::swell::{Swell, SwellProviderError};
use surfrs::units::*;

pub fn abbreviation(u: &Unit) -> &'static str {
    use Unit::*;
    match u {
        Millimeters => "mm", Meters => "m", MetersPerSecond => "m/s", Celsius => "°C", Pascal => "pa", HectaPascal => "hpa", Inches => "in", Feet => "ft",
        MilesPerHour => "mph", Fahrenheit => "°F", InchesMercury => "in Hg", Knots => "kt", Kelvin => "K", MetersSquaredPerHertz => "m²/Hz",
        NauticalMiles => "nmi", Degrees => "°", Seconds => "s", Percent => "%", KiloJoules => "kJ", Unknown => "",
    }
}
pub fn label(u: &Unit) -> String { if *u == Unit::Degrees { String::new() } else { format!(" {}", abbreviation(u)) } }
pub fn units() -> Vec<Unit> {
    use Unit::*;
    vec![Millimeters, Meters, MetersPerSecond, Celsius, Pascal, HectaPascal, Inches, Feet, MilesPerHour, Fahrenheit, InchesMercury,
        Knots, Kelvin, MetersSquaredPerHertz, NauticalMiles, Degrees, Seconds, Percent, KiloJoules, Unknown]
}
pub fn sector(d: i32) -> &'static str {
    match d {
        349..=360 | 0..=11 => "n", 12..=33 => "nne", 34..=56 => "ne", 57..=78 => "ene", 79..=101 => "e", 102..=123 => "ese", 124..=146 => "se", 147..=168 => "sse",
        169..=191 => "s", 192..=213 => "ssw", 214..=236 => "sw", 237..=258 => "wsw", 259..=281 => "w", 282..=303 => "wnw", 304..=326 => "nw", 327..=348 => "nnw", _ => "",
    }
}
fn decimals(v: f64, n: usize) -> String { format!("{v:.n$}") }
pub fn shown(q: &DimensionalData<f64>) -> String { match q.value { Some(v) => decimals(v, 1) + &label(&q.unit), None => "N/A".into() } }
pub fn shown_dir(q: &DimensionalData<Direction>) -> String { match &q.value { Some(d) => format!("{}° {}", d.degrees, sector(d.degrees)) + &label(&q.unit), None => "N/A".into() } }
pub fn value(c: &mut Ctx) -> f64 {
    match c.rng.below(9) { 0 => 0.0, 1 => -0.0, 2 => c.rng.fr(-400.0, 400.0), 3 => c.rng.range(-900, 900) as f64 / 20.0, 4 => 1e7 * c.rng.f(), 5 => c.rng.fr(-0.06, 0.06), 6 => c.rng.range(0, 30) as f64, _ => c.rng.fr(0.0, 20.0) }
}
pub fn quantity(c: &mut Ctx, us: &[Unit], n: &str) -> DimensionalData<f64> {
    let v = value(c);
    DimensionalData { value: if c.rng.chance(0.15) { None } else { Some(v) }, variable_name: n.into(), unit: c.rng.pick(us).clone() }
}
pub fn heading(c: &mut Ctx, us: &[Unit], n: &str) -> DimensionalData<Direction> {
    let d = c.rng.range(-30, 400) as i32;
    DimensionalData { value: if c.rng.chance(0.15) { None } else { Some(Direction::from_degrees(d)) }, variable_name: n.into(), unit: c.rng.pick(us).clone() }
}
// serde_json reads numbers to within a rounding error
fn near(a: Option<f64>, b: Option<f64>) -> bool { match (a, b) { (Some(a), Some(b)) => (a - b).abs() <= 1e-12 * b.abs(), (None, None) => true, _ => false } }
pub fn run(c: &mut Ctx) {
    c.rule = "quantities, directions and swells with every unit, of many magnitudes and missing, displayed and written to JSON; every degree from -60 to 420; non-trivial: the value is there".into();
    let us = units();
    c.exhaustive.push("all 20 units; whole degrees -60..=420".into());
    for u in &us {
        for v in [None, Some(12.0), Some(-0.26), Some(1.25), Some(0.05)] {
            let q = DimensionalData::<f64> { value: v, variable_name: "q".into(), unit: u.clone() };
            c.case("unit label", format!("{q:?}"), v.is_some(), || { ensure!(q.to_string() == shown(&q), "displays as {:?}, expected {:?}", q.to_string(), shown(&q)); ensure!(q.unit_label() == abbreviation(u), "label {:?}", q.unit_label()); Ok(()) });
        }
    }
    for d in -60..=420 {
        c.case("direction", format!("{d} degrees"), true, || { let t = Direction::from_degrees(d).to_string(); ensure!(t == format!("{d}° {}", sector(d)), "displays as {t:?}"); Ok(()) });
    }
    for _ in 0..c.n(3000, 80_000) {
        if c.over() { break; }
        let q = quantity(c, &us, "wave height");
        c.case("quantity", format!("{q:?}"), q.value.is_some(), || {
            ensure!(q.to_string() == shown(&q), "displays as {:?}, expected {:?}", q.to_string(), shown(&q));
            ensure!(format!("[{q}]") == format!("[{}]", shown(&q)), "inside a text: {:?}", format!("[{q}]"));
            ensure!(q.try_string() == q.value.map(|_| shown(&q)), "try_string {:?}", q.try_string());
            ensure!(q.get_value_opt() == q.value && q.unit_label() == abbreviation(&q.unit), "value or label");
            let j = serde_json::to_value(&q).map_err(|e| e.to_string())?;
            let o = j.as_object().ok_or("not an object")?;
            ensure!(o.len() == 4 && o["value"].as_f64() == q.value && o["value"].is_null() == q.value.is_none() && o["variable_name"] == "wave height" && o["unit"] == format!("{:?}", q.unit).as_str() && o["unit_label"] == abbreviation(&q.unit), "JSON {j}");
            let b: DimensionalData<f64> = serde_json::from_str(&serde_json::to_string(&q).unwrap()).map_err(|e| e.to_string())?;
            ensure!(near(b.value, q.value) && b.unit == q.unit && b.variable_name == q.variable_name, "reads back as {b:?}");
            Ok(())
        });
        let q = heading(c, &us, "mean wave direction");
        c.case("heading", format!("{q:?}"), q.value.is_some(), || {
            ensure!(q.to_string() == shown_dir(&q), "displays as {:?}, expected {:?}", q.to_string(), shown_dir(&q));
            ensure!(q.try_string() == q.value.as_ref().map(|_| shown_dir(&q)), "try_string {:?}", q.try_string());
            ensure!(q.get_value_opt().map(|d| d.degrees) == q.value.as_ref().map(|d| d.degrees), "value");
            let n: DimensionalData<f64> = q.clone().into();
            ensure!(n.value == q.value.as_ref().map(|d| d.degrees as f64) && n.unit == q.unit && n.variable_name == q.variable_name, "as a number: {n:?}");
            Ok(())
        });
        let f = DimensionalData::<f32> { value: if c.rng.chance(0.2) { None } else { Some(c.rng.fr(-9.0, 99.0) as f32) }, variable_name: "f".into(), unit: c.rng.pick(&us).clone() };
        c.case("single precision", format!("{f:?}"), f.value.is_some(), || {
            ensure!(f.get_value_opt() == f.value, "value");
            let want = match f.value { Some(v) => format!("{v:.1}") + &label(&f.unit), None => "N/A".into() };
            ensure!(f.to_string() == want, "displays as {:?}, expected {want:?}", f.to_string());
            Ok(())
        });
        let w = Swell { wave_height: quantity(c, &[Unit::Meters, Unit::Feet, Unit::Unknown], "wave height"), period: quantity(c, &[Unit::Seconds], "period"), direction: heading(c, &[Unit::Degrees], "direction"), energy: None, spectral_density: None, partition: None };
        c.case("swell", format!("{w:?}"), w.wave_height.value.is_some(), || {
            let want = format!("{} @ {} {}", shown(&w.wave_height), shown(&w.period), shown_dir(&w.direction));
            ensure!(w.to_string() == want, "displays as {:?}, expected {want:?}", w.to_string());
            let b: Swell = serde_json::from_str(&serde_json::to_string(&w).unwrap()).map_err(|e| e.to_string())?;
            ensure!(near(b.wave_height.value, w.wave_height.value) && b.wave_height.unit == w.wave_height.unit && near(b.period.value, w.period.value) && b.direction.value.as_ref().map(|d| d.degrees) == w.direction.value.as_ref().map(|d| d.degrees), "reads back as {b:?}");
            Ok(())
        });
    }
    for s in ["", "no peaks", "a: {b}", "%"] {
        c.case("errors", format!("reason {s:?}"), true, || {
            for (t, want) in [
                (SwellProviderError::NotImplemented.to_string(), "not implemented".to_string()),
                (SwellProviderError::InsufficientData(s.into()).to_string(), format!("insufficient data to create swell:  {s}")),
                (SwellProviderError::SwellPartitionError(s.into()).to_string(), format!("error partitioning swell: {s}")),
                (DataRecordParsingError::EOF.to_string(), "EOF while parsing data".into()),
                (DataRecordParsingError::NotImplemented.to_string(), "Encountered not implemented behavior".into()),
                (DataRecordParsingError::InvalidData.to_string(), "Invalid data encountered while parsing data".into()),
                (DataRecordParsingError::ParseFailure(s.into()).to_string(), format!("Data parse failure: {s}")),
                (DataRecordParsingError::KeyMissing(s.into()).to_string(), format!("Key missing from data: {s}")),
            ] { ensure!(t == want, "displays as {t:?}, expected {want:?}"); }
            Ok(())
        });
    }
}
