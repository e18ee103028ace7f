//! Stand-in for the generated weights of cross-consensus instructions.
pub struct KreivoXcmWeight<Call>(core::marker::PhantomData<Call>);
