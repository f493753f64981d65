//! Stand-in for the readap crate, which cannot be fetched offline: a table of columns in plain text,
//! one line per variable: name rows coords.. = values..   (see DodsDataset::from_bytes)
use std::marker::PhantomData;
#[derive(Debug, Clone)]
pub struct DodsDataset<'a> { pub vars: Vec<Var>, p: PhantomData<&'a ()> }
#[derive(Debug, Clone)]
pub struct Var { pub name: String, pub coords: Vec<(String, DataArray)>, pub data: Vec<f64> }
#[derive(Debug, Clone)]
pub struct DataArray(pub Vec<f64>);
#[derive(Debug, Clone)]
pub struct DataValue(pub f64);
#[derive(Debug, Clone)]
pub struct Error;
impl TryFrom<DataArray> for Vec<i64> { type Error = Error; fn try_from(d: DataArray) -> Result<Self, Error> { Ok(d.0.iter().map(|x| *x as i64).collect()) } }
impl TryFrom<DataArray> for Vec<f64> { type Error = Error; fn try_from(d: DataArray) -> Result<Self, Error> { Ok(d.0) } }
impl TryFrom<DataValue> for f64 { type Error = Error; fn try_from(d: DataValue) -> Result<Self, Error> { Ok(d.0) } }
impl<'a> DodsDataset<'a> {
    /// lines "name|v v v|coord v v|coord v v"
    pub fn from_bytes(b: &'a [u8]) -> Result<Self, Error> {
        let t = std::str::from_utf8(b).map_err(|_| Error)?;
        let nums = |s: &str| -> Result<Vec<f64>, Error> { s.split_whitespace().map(|x| x.parse().map_err(|_| Error)).collect() };
        let mut vars = vec![];
        for l in t.lines() {
            let mut p = l.split('|');
            let name = p.next().ok_or(Error)?.to_string();
            let data = nums(p.next().ok_or(Error)?)?;
            let mut coords = vec![];
            for c in p { let (n, v) = c.split_once(' ').unwrap_or((c, "")); coords.push((n.to_string(), DataArray(nums(v)?))); }
            vars.push(Var { name, coords, data });
        }
        Ok(DodsDataset { vars, p: PhantomData })
    }
    fn var(&self, n: &str) -> Result<&Var, Error> { self.vars.iter().find(|v| v.name == n).ok_or(Error) }
    pub fn variable_coords(&self, n: &str) -> Result<Vec<(String, DataArray)>, Error> { Ok(self.var(n)?.coords.clone()) }
    pub fn variable_data_iter<'b>(&'b self, n: &str) -> Result<Box<dyn Iterator<Item = DataValue> + 'b>, Error> { Ok(Box::new(self.var(n)?.data.iter().map(|x| DataValue(*x)))) }
}
