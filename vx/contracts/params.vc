%file params.rs
%module params
%prelude
broadcast use crate::num_axioms::num_laws;
pub open spec fn params_valid<P: RTreeParams>() -> bool {
    &&& P::MAX_SIZE >= 4
    &&& P::MIN_SIZE > 0
    &&& 2 * P::MIN_SIZE <= P::MAX_SIZE + 1
    &&& P::REINSERTION_COUNT < P::MAX_SIZE - P::MIN_SIZE
}
// a node cannot hold usize::MAX children
pub open spec fn params_ok<P: RTreeParams>() -> bool { params_valid::<P>() && P::MAX_SIZE < usize::MAX }
// what must hold when a constructor returns
pub open spec fn created<T: RTreeObject, P: RTreeParams>() -> bool { params_ok::<P>() && <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS > 1 }
%item trait RTreeParams
%super Sized
%item trait RTreeParams::DefaultInsertionStrategy
%drop associated strategy type (cyclic trait bound); the default strategy is extracted directly
%item struct DefaultParams
%item impl RTreeParams for DefaultParams
%item impl RTreeParams for DefaultParams::DefaultInsertionStrategy
%drop associated strategy type (cyclic trait bound)
%item trait InsertionStrategy
%drop cyclic trait bound; RStarInsertionStrategy::insert is extracted as an inherent function
%item fn verify_parameters
%opt rejects
%sig
    // returns (does not panic) only for valid parameters
    ensures params_valid::<P>(), <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS > 1
%item fn verify_parameters#verify_parameters_accepts
%opt asserts_proved
%sig
    // no assertion can fail for valid parameters
    requires params_valid::<P>(), <<T::Envelope as Envelope>::Point as Point>::DIMENSIONS > 1
%postlude
// the default parameters are accepted
pub proof fn c20_default_params() ensures params_ok::<DefaultParams>() {}
