//! nested storage transactions
use super::unhashed;
use sp_io::storage::{commit_transaction, rollback_transaction, start_transaction};
use sp_runtime::{DispatchError, TransactionOutcome, TransactionalError};

type Layer = u32;
const TRANSACTION_LEVEL_KEY: &[u8] = b":transaction_level:";
const TRANSACTIONAL_LIMIT: Layer = 255;

pub fn get_transaction_level() -> Layer {
    unhashed::get_or_default::<Layer>(TRANSACTION_LEVEL_KEY)
}
fn set_transaction_level(level: Layer) {
    unhashed::put::<Layer>(TRANSACTION_LEVEL_KEY, &level);
}
fn kill_transaction_level() {
    unhashed::kill(TRANSACTION_LEVEL_KEY);
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        match get_transaction_level() {
            0 => {}
            1 => kill_transaction_level(),
            n => set_transaction_level(n - 1),
        }
    }
}
fn inc() -> Result<Guard, ()> {
    let n = get_transaction_level();
    if n >= TRANSACTIONAL_LIMIT {
        return Err(());
    }
    set_transaction_level(n + 1);
    Ok(Guard)
}

pub fn is_transactional() -> bool {
    get_transaction_level() > 0
}

pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
where
    E: From<DispatchError>,
    F: FnOnce() -> TransactionOutcome<Result<T, E>>,
{
    let _guard = inc().map_err(|()| E::from(TransactionalError::LimitReached.into()))?;
    start_transaction();
    match f() {
        TransactionOutcome::Commit(r) => {
            commit_transaction();
            r
        }
        TransactionOutcome::Rollback(r) => {
            rollback_transaction();
            r
        }
    }
}

pub fn with_transaction_unchecked<R>(f: impl FnOnce() -> TransactionOutcome<R>) -> R {
    let _guard = inc().expect("not so many transactions");
    start_transaction();
    match f() {
        TransactionOutcome::Commit(r) => {
            commit_transaction();
            r
        }
        TransactionOutcome::Rollback(r) => {
            rollback_transaction();
            r
        }
    }
}

pub fn with_storage_layer<T, E, F>(f: F) -> Result<T, E>
where
    E: From<DispatchError>,
    F: FnOnce() -> Result<T, E>,
{
    with_transaction(|| {
        let r = f();
        if r.is_ok() {
            TransactionOutcome::Commit(r)
        } else {
            TransactionOutcome::Rollback(r)
        }
    })
}

pub fn in_storage_layer<T, E, F>(f: F) -> Result<T, E>
where
    E: From<DispatchError>,
    F: FnOnce() -> Result<T, E>,
{
    if is_transactional() {
        f()
    } else {
        with_storage_layer(f)
    }
}
