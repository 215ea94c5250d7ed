//! Stand-in for the host interface: call parameters are what the harness says.
pub use marine_macro::{fce, marine};
use std::cell::RefCell;

#[derive(Clone, Debug, Default, Eq, PartialEq, Hash)]
pub struct SecurityTetraplet {
    pub peer_pk: String,
    pub service_id: String,
    pub function_name: String,
    pub json_path: String,
}

impl SecurityTetraplet {
    pub fn new(
        peer_pk: impl Into<String>,
        service_id: impl Into<String>,
        function_name: impl Into<String>,
        json_path: impl Into<String>,
    ) -> Self {
        Self {
            peer_pk: peer_pk.into(),
            service_id: service_id.into(),
            function_name: function_name.into(),
            json_path: json_path.into(),
        }
    }
    pub fn literal_tetraplet(init_peer_id: impl Into<String>) -> Self {
        Self { peer_pk: init_peer_id.into(), ..Default::default() }
    }
    pub fn add_lambda(&mut self, json_path: &str) {
        self.json_path.push_str(json_path)
    }
}

#[derive(Clone, PartialEq, Default, Eq, Debug)]
pub struct CallParameters {
    pub init_peer_id: String,
    pub service_id: String,
    pub service_creator_peer_id: String,
    pub host_id: String,
    pub particle_id: String,
    pub tetraplets: Vec<Vec<SecurityTetraplet>>,
}

thread_local!(static CALL: RefCell<CallParameters> = RefCell::new(CallParameters::default()));

pub fn set_call_parameters(c: CallParameters) {
    CALL.with(|x| *x.borrow_mut() = c)
}
pub fn get_call_parameters() -> CallParameters {
    CALL.with(|x| x.borrow().clone())
}

#[macro_export]
macro_rules! module_manifest {
    ($($t:tt)*) => {};
}

pub struct WasmLoggerBuilder;
impl WasmLoggerBuilder {
    pub fn new() -> Self {
        WasmLoggerBuilder
    }
    pub fn with_log_level(self, _: log::LevelFilter) -> Self {
        self
    }
    pub fn build(self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
}
