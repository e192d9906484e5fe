//! who hears about a block's author
use frame_support::traits::FindAuthor;
pub trait EventHandler<Author, BlockNumber> {
    fn note_author(author: Author);
}
pub trait Config: frame_system::Config {
    type FindAuthor: FindAuthor<Self::AccountId>;
    type EventHandler: EventHandler<Self::AccountId, frame_system::pallet_prelude::BlockNumberFor<Self>>;
}
/// asks for the author of the block (FRAME also keeps the answer for the block)
pub struct Pallet<T>(std::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
    pub fn author() -> Option<T::AccountId> {
        T::FindAuthor::find_author(std::iter::empty())
    }
}
