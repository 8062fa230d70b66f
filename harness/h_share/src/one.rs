//! The protocols on plain values: one party, a share is the value. What is opened, drawn and dealt is logged.
use crate::field::*;
use jester_sharing::beaver_randomization_multiplication::*;
use jester_sharing::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::*;
use std::future::{ready, Future};
use std::pin::Pin;
use sym::*;

#[derive(Clone, Debug)]
pub struct Val<T>(pub T);

pub struct Lone<T: Field> {
    pub opened: Vec<T>,
    pub triples: Vec<(T, T)>,
    pub drawn: Vec<T>,
    /// what is dealt is not zero
    pub nonzero: bool,
}
impl<T: Field> Lone<T> {
    pub fn new(nonzero: bool) -> Lone<T> {
        unsafe { PARTIES = 0 };
        Lone { opened: vec![], triples: vec![], drawn: vec![], nonzero }
    }
}
impl<T: Field> ThresholdSecretSharingScheme<T, Val<T>> for Lone<T> {
    fn generate_shares<R: RngCore + CryptoRng>(_: &mut R, s: &T, n: usize, _: usize) -> Vec<Val<T>> {
        vec![Val(s.clone()); n]
    }
    fn reconstruct_secret(s: &[Val<T>], _: usize) -> T {
        s[0].0.clone()
    }
}
impl<T: Field> LinearSharingScheme<T, Val<T>> for Lone<T> {
    fn add_shares(a: &Val<T>, b: &Val<T>) -> Val<T> {
        Val(a.0.clone() + b.0.clone())
    }
    fn sub_shares(a: &Val<T>, b: &Val<T>) -> Val<T> {
        Val(a.0.clone() - b.0.clone())
    }
    fn add_scalar(a: &Val<T>, b: &T) -> Val<T> {
        Val(a.0.clone() + b.clone())
    }
    fn sub_scalar(a: &Val<T>, b: &T) -> Val<T> {
        Val(a.0.clone() - b.clone())
    }
    fn multiply_scalar(a: &Val<T>, b: &T) -> Val<T> {
        Val(a.0.clone() * b.clone())
    }
    fn sum_shares(s: &[Val<T>]) -> Option<Val<T>> {
        let mut i = s.iter();
        let f = i.next()?.0.clone();
        Some(Val(i.fold(f, |a, b| a + b.0.clone())))
    }
}
impl<T: Field> CliqueCommunicationScheme<T, Val<T>> for Lone<T> {
    fn reveal_shares(&mut self, s: Val<T>) -> Pin<Box<dyn Future<Output = T> + Send>> {
        self.opened.push(s.0.clone());
        Box::pin(ready(s.0))
    }
    fn distribute_secret(&mut self, s: T) -> Pin<Box<dyn Future<Output = Vec<Val<T>>> + Send>> {
        if self.nonzero {
            assume(!s.zero_());
        }
        self.drawn.push(s.clone());
        Box::pin(ready(vec![Val(s)]))
    }
}
impl<T: Field> BeaverCommunicationScheme<Val<T>> for Lone<T> {
    fn get_reconstruction_threshold(&self) -> usize {
        1
    }
    fn obtain_beaver_triples<'a>(&'a mut self, count: usize) -> Pin<Box<dyn Future<Output = Vec<(Val<T>, Val<T>, Val<T>)>> + Send + 'a>> {
        let v = (0..count)
            .map(|_| {
                let (a, b) = (T::any(), T::any());
                self.triples.push((a.clone(), b.clone()));
                (Val(a.clone()), Val(b.clone()), Val(a * b))
            })
            .collect();
        Box::pin(ready(v))
    }
}
macro_rules! delegate {
    ($scheme:ident, $marker:ident, $to:ident) => {
        impl<T: Field> $marker for Lone<T> {
            type Marker = Delegate;
        }
        impl<T: Field> $scheme<T, Val<T>, Lone<T>> for Lone<T> {
            type Delegate = $to<T, Val<T>, Lone<T>>;
        }
    };
}
delegate!(MultiplicationSchemeDelegate, MultiplicationSchemeMarker, BeaverRerandomizationMultiplication);
delegate!(UnboundedMultiplicationSchemeDelegate, UnboundedMultiplicationSchemeMarker, BeaverRerandomizationMultiplication);
delegate!(RandomNumberGenerationSchemeDelegate, RandomNumberGenerationSchemeMarker, SumRandomNumberGeneration);
delegate!(InversionSchemeDelegate, InversionSchemeMarker, JointUnboundedInversion);
delegate!(UnboundedInversionSchemeDelegate, UnboundedInversionSchemeMarker, JointUnboundedInversion);
delegate!(ConditionalSelectionSchemeDelegate, ConditionalSelectionSchemeMarker, JointConditionalSelection);
delegate!(OrFunctionSchemeDelegate, OrFunctionSchemeMarker, JointUnboundedOrFunction);
delegate!(UnboundedOrFunctionSchemeDelegate, UnboundedOrFunctionSchemeMarker, JointUnboundedOrFunction);
