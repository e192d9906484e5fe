//! What the servers need of a node: a runtime that is asked, the best block, and forms of errors and numbers.

pub mod sp_api {
    use codec::{Decode, Encode};
    use std::cell::RefCell;

    #[derive(Debug)]
    pub struct ApiError(pub &'static str);
    impl std::fmt::Display for ApiError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(self.0)
        }
    }
    thread_local! {
        static NEXT: RefCell<Option<Vec<u8>>> = RefCell::new(None);
        static ASKED: RefCell<Vec<(String, Vec<u8>, Vec<u8>)>> = RefCell::new(vec![]);
    }
    /// what the runtime is to answer: nothing is a trap
    pub fn script(answer: Option<Vec<u8>>) {
        ASKED.with(|a| a.borrow_mut().clear());
        NEXT.with(|n| *n.borrow_mut() = answer);
    }
    pub fn asked() -> Vec<(String, Vec<u8>, Vec<u8>)> {
        ASKED.with(|a| a.borrow().clone())
    }
    pub fn answer<R: Decode>(name: &str, at: &impl Encode, args: &impl Encode) -> Result<R, ApiError> {
        ASKED.with(|a| a.borrow_mut().push((name.into(), at.encode(), args.encode())));
        NEXT.with(|n| match &*n.borrow() {
            None => Err(ApiError("trap")),
            Some(b) => R::decode(&mut &b[..]).map_err(|_| ApiError("another answer")),
        })
    }
    pub trait ProvideRuntimeApi<Block> {
        type Api;
        fn runtime_api(&self) -> &Self::Api;
    }
}
pub mod sp_blockchain {
    pub struct Info<Block: sp_runtime::traits::Block> {
        pub best_hash: Block::Hash,
        pub genesis_hash: Block::Hash,
        pub finalized_hash: Block::Hash,
    }
    pub trait HeaderBackend<Block: sp_runtime::traits::Block> {
        fn info(&self) -> Info<Block>;
    }
}
pub mod sp_rpc {
    pub mod number {
        use sp_core::U256;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum NumberOrHex {
            Number(u64),
            Hex(U256),
        }
        impl NumberOrHex {
            pub fn value(&self) -> U256 {
                match self {
                    Self::Number(n) => (*n).into(),
                    Self::Hex(n) => *n,
                }
            }
        }
        impl From<u128> for NumberOrHex {
            fn from(n: u128) -> Self {
                Self::Hex(n.into())
            }
        }
        impl From<u64> for NumberOrHex {
            fn from(n: u64) -> Self {
                Self::Number(n)
            }
        }
        impl From<u32> for NumberOrHex {
            fn from(n: u32) -> Self {
                Self::Number(n.into())
            }
        }
        impl From<U256> for NumberOrHex {
            fn from(n: U256) -> Self {
                Self::Hex(n)
            }
        }
        impl TryFrom<NumberOrHex> for u128 {
            type Error = ();
            fn try_from(n: NumberOrHex) -> Result<u128, ()> {
                n.value().try_into().map_err(|_| ())
            }
        }
        impl TryFrom<NumberOrHex> for u64 {
            type Error = ();
            fn try_from(n: NumberOrHex) -> Result<u64, ()> {
                n.value().try_into().map_err(|_| ())
            }
        }
    }
}
pub mod jsonrpsee {
    pub mod core {
        use super::types::error::CallError;
        #[derive(Debug)]
        pub enum Error {
            Call(CallError),
        }
        impl From<CallError> for Error {
            fn from(e: CallError) -> Self {
                Self::Call(e)
            }
        }
        pub type RpcResult<T> = Result<T, Error>;
        /// the attribute of this name is taken away
        pub fn async_trait() {}
    }
    pub mod proc_macros {
        pub fn rpc() {}
    }
    pub mod types {
        pub mod error {
            #[derive(Debug)]
            pub struct ErrorObject {
                pub code: i32,
                pub message: String,
            }
            impl ErrorObject {
                pub fn owned<S>(code: i32, message: impl Into<String>, _data: Option<S>) -> Self {
                    Self { code, message: message.into() }
                }
            }
            #[derive(Debug)]
            pub enum CallError {
                Custom(ErrorObject),
            }
            pub enum ErrorCode {
                ParseError,
                InvalidRequest,
                MethodNotFound,
                InvalidParams,
                InternalError,
                ServerError(i32),
            }
            impl ErrorCode {
                pub fn code(&self) -> i32 {
                    match self {
                        Self::ParseError => -32700,
                        Self::InvalidRequest => -32600,
                        Self::MethodNotFound => -32601,
                        Self::InvalidParams => -32602,
                        Self::InternalError => -32603,
                        Self::ServerError(n) => *n,
                    }
                }
            }
        }
    }
}
