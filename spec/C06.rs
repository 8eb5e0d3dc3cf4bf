mod voronoi {
    mod constructor {
        mod parallel {
            mod mpi_types {
                // what is sent is reconstructed
                #[law]
                fn search_data_2d(x: SearchData<TwoD>) -> bool {
                    let y = SearchData::<TwoD>::from_equivalent(&x.to_equivalent());
                    y.point.x == x.point.x && y.point.y == x.point.y && y.radius == x.radius
                }
                #[law]
                fn search_data_3d(x: SearchData<ThreeD>) -> bool {
                    let y = SearchData::<ThreeD>::from_equivalent(&x.to_equivalent());
                    y.point.x == x.point.x && y.point.y == x.point.y && y.point.z == x.point.z && y.radius == x.radius
                }
                #[law]
                fn search_result_2d(x: SearchResult<TwoD>) -> bool {
                    let y = SearchResult::<TwoD>::from_equivalent(&x.to_equivalent());
                    y.point.x == x.point.x && y.point.y == x.point.y && y.id == x.id && y.periodic_wrap_type.x == x.periodic_wrap_type.x && y.periodic_wrap_type.y == x.periodic_wrap_type.y
                }
                #[law]
                fn search_result_3d(x: SearchResult<ThreeD>) -> bool {
                    let y = SearchResult::<ThreeD>::from_equivalent(&x.to_equivalent());
                    y.point.x == x.point.x
                        && y.point.y == x.point.y
                        && y.point.z == x.point.z
                        && y.id == x.id
                        && y.periodic_wrap_type.x == x.periodic_wrap_type.x
                        && y.periodic_wrap_type.y == x.periodic_wrap_type.y
                        && y.periodic_wrap_type.z == x.periodic_wrap_type.z
                }
                #[law(no_panic)]
                fn wraps_2d(x: PeriodicWrapType2d) -> bool {
                    let n: (isize, isize) = x.into();
                    let y: PeriodicWrapType2d = n.into();
                    y.x == x.x && y.y == x.y
                }
                #[law(no_panic)]
                fn wraps_3d(x: PeriodicWrapType3d) -> bool {
                    let n: (isize, isize, isize) = x.into();
                    let y: PeriodicWrapType3d = n.into();
                    y.x == x.x && y.y == x.y && y.z == x.z
                }
                #[law(no_panic)]
                fn wrap_type(x: WrapType) -> bool {
                    let n: isize = x.into();
                    let y: WrapType = n.into();
                    y == x
                }
            }
        }
    }
}
mod communication {
    mod identified {
        #[law]
        fn identified(e: Entity, data: f64) -> bool {
            let x = Identified::new(e, data);
            x.entity() == e && x.data == data
        }
    }
}
