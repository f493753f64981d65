//! Stand-in for the gribberish crate, which cannot be fetched offline. A message is a small regular grid held in memory.
pub mod error {
    #[derive(Debug, Clone)]
    pub enum GribberishError { MessageError(String) }
    impl std::fmt::Display for GribberishError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl std::error::Error for GribberishError {}
}
pub mod templates { pub mod product { pub mod tables {
    #[derive(Debug, Clone, PartialEq)]
    pub enum FixedSurfaceType { OrderedSequence, GroundOrWater, Missing }
} } }
pub mod message {
    use super::error::GribberishError as E;
    use super::templates::product::tables::FixedSurfaceType;
    #[derive(Debug, Clone)]
    pub struct Message { pub date: chrono::DateTime<chrono::Utc>, pub var: String, pub surface: (FixedSurfaceType, Option<f64>, Option<f64>), pub unit: String, pub lat: Vec<f64>, pub lng: Vec<f64>, pub values: Vec<f64> }
    pub struct Projector { lat: Vec<f64>, lng: Vec<f64> }
    impl Projector {
        /// (west, south, east, north)
        pub fn bbox(&self) -> (f64, f64, f64, f64) {
            let (a, b) = (self.lat[0], *self.lat.last().unwrap());
            (self.lng[0], a.min(b), *self.lng.last().unwrap(), a.max(b))
        }
        pub fn lat_lng(&self) -> (Vec<f64>, Vec<f64>) { (self.lat.clone(), self.lng.clone()) }
        pub fn latlng_start(&self) -> (f64, f64) { (self.lat[0], self.lng[0]) }
        pub fn latlng_end(&self) -> (f64, f64) { (*self.lat.last().unwrap(), *self.lng.last().unwrap()) }
    }
    impl Message {
        pub fn forecast_date(&self) -> Result<chrono::DateTime<chrono::Utc>, E> { Ok(self.date) }
        pub fn variable_abbrev(&self) -> Result<String, E> { Ok(self.var.clone()) }
        pub fn first_fixed_surface(&self) -> Result<(FixedSurfaceType, Option<f64>, Option<f64>), E> { Ok(self.surface.clone()) }
        pub fn unit(&self) -> Result<String, E> { Ok(self.unit.clone()) }
        pub fn grid_dimensions(&self) -> Result<(usize, usize), E> { Ok((self.lat.len(), self.lng.len())) }
        pub fn data(&self) -> Result<Vec<f64>, E> { Ok(self.values.clone()) }
        pub fn latlng_projector(&self) -> Result<Projector, E> { Ok(Projector { lat: self.lat.clone(), lng: self.lng.clone() }) }
    }
}
#[macro_export]
macro_rules! unwrap_or_return { ($e:expr, $m:expr) => { match $e { Some(x) => x, None => return Err($m) } }; }
