fn main() {}
// the crate's own paths
pub mod util { pub use crate::m_util::*; }
pub mod types { pub use crate::m_types::*; }
pub mod mem { pub use crate::m_mem::*; }
pub mod backend { pub use crate::{mem, types}; }
pub mod error { pub use crate::m_error::*; }
pub mod retry { pub use crate::m_retry::*; }
pub mod job_context { pub use crate::m_job_context::*; }
pub mod executable { pub use crate::m_executable::*; }
pub mod job { pub use crate::m_job::*; pub use crate::m_retry::*; pub use crate::m_job_context::*; pub use crate::m_executable::*; pub use crate::{retry, job_context, executable}; }
pub mod job_plugin { pub use crate::m_plugin_job::*; }
pub mod plugin { pub use crate::m_plugin::*; pub use crate::m_plugin_job::*; pub use crate::job_plugin; }
pub mod queue { pub use crate::m_queue::*; }
pub mod aj { pub use crate::m_aj::*; }
pub use m_util::*;
pub use m_queue::*;
