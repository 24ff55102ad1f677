//! QR codes as an ideal function: the modules are what the harness asks for, pseudo-random bits
//! otherwise, and the text encoded is noted down.
use psym::model;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum QrCodeEcc {
    Low,
    Medium,
    Quartile,
    High,
}

#[derive(Debug, Clone)]
pub enum DataTooLong {
    SegmentTooLong,
    DataOverCapacity(usize, usize),
}
impl std::error::Error for DataTooLong {}
impl std::fmt::Display for DataTooLong {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            Self::SegmentTooLong => "Segment too long",
            Self::DataOverCapacity(..) => "Data too long",
        })
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct QrCode {
    size: i32,
    ecl: QrCodeEcc,
    modules: Vec<u8>,
}
impl QrCode {
    pub fn encode_text(text: &str, ecl: QrCodeEcc) -> Result<Self, DataTooLong> {
        Self::encode_binary(text.as_bytes(), ecl)
    }
    pub fn encode_binary(data: &[u8], ecl: QrCodeEcc) -> Result<Self, DataTooLong> {
        if data.len() > 2953 >> ecl as usize {
            return Err(DataTooLong::DataOverCapacity(data.len() * 8, 2953 * 8));
        }
        let mut size = 21;
        while size < 177 && data.len() as i32 * 20 > (size - 10) * (size - 10) {
            size += 4;
        }
        let _w = psym::Pause::new();
        let m = model::get();
        let mut modules = vec![0; (size * size) as usize];
        for i in 0..modules.len() {
            modules[i] = (model::mix(i as u64) & 1) as u8;
        }
        for (x, y, b) in &m.qr_modules {
            modules[y * size as usize + x] = *b;
        }
        m.qr_log.push((data.to_vec(), modules.clone()));
        Ok(Self { size, ecl, modules })
    }
    pub fn size(&self) -> i32 {
        self.size
    }
    pub fn error_correction_level(&self) -> QrCodeEcc {
        self.ecl
    }
    pub fn get_module(&self, x: i32, y: i32) -> bool {
        (0..self.size).contains(&x) && (0..self.size).contains(&y) && self.modules[(y * self.size + x) as usize] != 0
    }
}
impl Drop for QrCode {
    fn drop(&mut self) {}
}
