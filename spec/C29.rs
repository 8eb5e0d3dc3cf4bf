mod parameter_plugin {
    mod parameter_file_contents {
        // overrides apply in order; one that gives the whole section settles it
        #[spec(opaque(set_sublevel_value_by_keys))]
        fn insert_overrides(value: &mut Value, overrides: &[Override]) {
            for o in overrides {
                if o.keys.len() == 0 {
                    *value = o.value.clone();
                    break;
                }
                set_sublevel_value_by_keys(value, &o.keys, o.value.clone());
            }
        }
        #[spec(opaque(construct_sub_mapping))]
        fn construct_sub_mapping(keys: &[String], value: Value) -> Value {
            if keys.len() == 0 {
                return value;
            }
            let inner = construct_sub_mapping(&keys[1..], value);
            let mut level = Mapping::default();
            level.insert(Value::String(keys[0].clone()), inner);
            Value::Mapping(level)
        }
        // only the addressed key changes, missing levels are created
        #[spec(opaque(set_sublevel_value_by_keys, construct_sub_mapping))]
        fn set_sublevel_value_by_keys(value: &mut Value, keys: &[String], target_value: Value) {
            if keys.len() == 0 {
                *value = target_value;
                return;
            }
            match value.as_mapping_mut() {
                Some(mapping) => match mapping.get_mut(&keys[0]) {
                    Some(entry) => set_sublevel_value_by_keys(entry, &keys[1..], target_value),
                    None => {
                        mapping.insert(Value::String(keys[0].clone()), construct_sub_mapping(&keys[1..], target_value));
                    }
                },
                None => panic!(),
            }
        }
        #[spec(opaque(insert_overrides))]
        fn extract_from_section<T: SubsweepParameters>(overrides: &[Override], section_value: &mut Value) -> T {
            insert_overrides(section_value, overrides);
            serde_yaml::from_str(&serde_yaml::to_string(section_value).unwrap()).unwrap()
        }
        impl ParameterFileContents {
            #[spec]
            fn with_overrides(&mut self, overrides: Vec<Override>) {
                self.overrides = overrides;
            }
            #[spec]
            fn get_overrides_for_section(&self, section_name: String) -> impl Iterator<Item = Override> {
                self.overrides.iter().filter(move |o| o.section == section_name).cloned()
            }
            #[spec(opaque(extract_from_section, extract_from_default, get_overrides_for_section, unwrap_section_name))]
            fn extract_parameter_struct<T: SubsweepParameters>(&mut self) -> T {
                let name = T::unwrap_section_name();
                let overrides: Vec<Override> = self.get_overrides_for_section(name.to_owned()).collect();
                match self.sections.get_mut(name) {
                    Some(value) => extract_from_section(&overrides, value),
                    None => {
                        let t = extract_from_default::<T>(&overrides);
                        self.sections.insert(name.to_string(), serde_yaml::to_value(&t).unwrap());
                        t
                    }
                }
            }
        }
        // the defaulted section sees the overrides too
        #[spec(opaque(insert_overrides, unwrap_section_name))]
        fn extract_from_default<T: SubsweepParameters>(overrides: &[Override]) -> T {
            let mut value = Value::Mapping(Mapping::default());
            insert_overrides(&mut value, overrides);
            let first = serde_yaml::from_value::<T>(value);
            let second = serde_yaml::from_value::<T>(Value::Null);
            if first.is_ok() {
                first.unwrap()
            } else {
                second.unwrap()
            }
        }
    }
}
