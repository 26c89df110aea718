//! See ../rusoto_core. What is downloaded is given by the harness (`verif_serve`), by the last part of its name.
use rusoto_core::{Region, RusotoFuture};
use std::io::Read;
use std::sync::Mutex;

static SERVED: Mutex<Vec<(String, Vec<u8>)>> = Mutex::new(Vec::new());
pub fn verif_serve(name: &str, data: &[u8]) {
    SERVED.lock().unwrap().push((name.to_string(), data.to_vec()));
}

#[derive(Default, Debug, Clone)]
pub struct GetObjectRequest {
    pub bucket: String,
    pub key: String,
    pub range: Option<String>,
}
pub struct StreamingBody(pub Vec<u8>);
impl StreamingBody {
    pub fn into_blocking_read(self) -> impl Read {
        std::io::Cursor::new(self.0)
    }
}
pub struct GetObjectOutput {
    pub body: Option<StreamingBody>,
}
pub struct S3Client;
impl S3Client {
    pub fn new(_: Region) -> S3Client {
        S3Client
    }
}
pub trait S3 {
    fn get_object(&self, r: GetObjectRequest) -> RusotoFuture<GetObjectOutput>;
}
impl S3 for S3Client {
    fn get_object(&self, r: GetObjectRequest) -> RusotoFuture<GetObjectOutput> {
        let name = r.key.rsplit('/').next().unwrap_or("").to_string();
        let data = SERVED.lock().unwrap().iter().find(|f| f.0 == name).map(|f| f.1.clone());
        RusotoFuture(data.map(|d| GetObjectOutput { body: Some(StreamingBody(d)) }))
    }
}
