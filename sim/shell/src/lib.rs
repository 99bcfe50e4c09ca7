//! Where the server's generic code is instantiated: this crate is compiled with the same
//! instrumentation as the code under test.
use octane::prelude::*;

pub async fn serve<F: FnOnce()>(app: Octane, port: u16, started: F) -> Result<(), String> {
    app.listen(port, started).await.map_err(|e| e.to_string())
}
