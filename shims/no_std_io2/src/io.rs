mod buffered;
mod cursor;
mod error;
mod impls;
mod traits;
mod util;
pub use cursor::Cursor;
pub use error::{Error, ErrorKind, Result};
pub use traits::{BufRead, Bytes, Chain, Read, Seek, SeekFrom, Take, Write};
pub use buffered::{BufReader, BufWriter, LineWriter};
pub use util::copy;
