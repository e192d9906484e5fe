//! who names the validators of a session
pub trait SessionManager<ValidatorId> {
    fn new_session(new_index: u32) -> Option<Vec<ValidatorId>>;
    fn new_session_genesis(new_index: u32) -> Option<Vec<ValidatorId>> {
        Self::new_session(new_index)
    }
    fn end_session(end_index: u32);
    fn start_session(start_index: u32);
}
