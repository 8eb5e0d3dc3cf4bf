mod stages {
    #[spec(effects(add_stage, add_stage_timers_for_stages))]
    fn make_schedule_from_stage_labels(schedule: &mut Schedule, labels: &[StageLabelId]) {
        for i in 0..labels.len() {
            schedule.add_stage(labels[i].as_label(), SystemStage::single_threaded());
        }
        add_stage_timers_for_stages(schedule, labels);
    }
    #[spec(opaque(get_stages, get_startup_stages, add_timers), effects(make_schedule_from_stage_labels, add_stage))]
    fn create_schedule() -> Schedule {
        let mut schedule = Schedule::default();
        let mut startup_schedule = Schedule::default().with_run_criteria(ShouldRun::once);
        make_schedule_from_stage_labels(&mut startup_schedule, &add_timers(&get_startup_stages()));
        schedule.add_stage(StartupSchedule, startup_schedule);
        make_schedule_from_stage_labels(&mut schedule, &add_timers(&get_stages()));
        schedule
    }
}
