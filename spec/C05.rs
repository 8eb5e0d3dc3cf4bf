mod communication {
    mod communicated_option {
        #[law]
        fn roundtrip<T>(x: Option<T>) -> bool {
            let c = CommunicatedOption::<T>::from(x);
            Option::<T>::from(c) == x
        }
        #[law]
        fn clone_keeps_the_value<T>(x: Option<T>) -> bool {
            let c = CommunicatedOption::<T>::from(x);
            let d = c.clone();
            Option::<T>::from(d) == x
        }
        impl<T> CommunicatedOption<T> {
            #[spec(effects(assume_init))]
            fn clone(&self) -> Self {
                let data = if self.valid { MaybeUninit::new(self.data.assume_init_ref().clone()) } else { MaybeUninit::uninit() };
                Self { valid: self.valid, data }
            }
        }
        impl<T> From<CommunicatedOption<T>> for Option<T> {
            #[spec(effects(assume_init))]
            fn from(other: CommunicatedOption<T>) -> Option<T> {
                if other.valid {
                    Some(other.data.assume_init())
                } else {
                    None
                }
            }
        }
    }
}
