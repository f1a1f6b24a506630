use std::any::Any;
use std::any::TypeId;
use std::fmt::Debug;
use std::hash::Hash;

pub use bevy_ecs_macros::StageLabel;
pub use bevy_ecs_macros::SystemLabel;
use simcore::mix;

use crate::system::FunctionSystem;
use crate::system::Resource;
use crate::system::System;
use crate::system::SystemParamFunction;
use crate::world::World;

#[derive(Clone, Copy, Debug)]
pub struct StageLabelId(pub TypeId, pub &'static str);
#[derive(Clone, Copy, Debug)]
pub struct SystemLabelId(pub TypeId, pub &'static str);
impl PartialEq for StageLabelId {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.1 == o.1
    }
}
impl Eq for StageLabelId {}
impl PartialEq for SystemLabelId {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.1 == o.1
    }
}
impl Eq for SystemLabelId {}

pub trait StageLabel: 'static {
    fn as_str(&self) -> &'static str;
    fn as_label(&self) -> StageLabelId {
        StageLabelId(TypeId::of::<Self>(), self.as_str())
    }
}
impl StageLabel for StageLabelId {
    fn as_str(&self) -> &'static str {
        self.1
    }
    fn as_label(&self) -> StageLabelId {
        *self
    }
}
pub trait SystemLabel: 'static {
    fn as_str(&self) -> &'static str;
    fn as_label(&self) -> SystemLabelId {
        SystemLabelId(TypeId::of::<Self>(), self.as_str())
    }
}
impl SystemLabel for SystemLabelId {
    fn as_str(&self) -> &'static str {
        self.1
    }
    fn as_label(&self) -> SystemLabelId {
        *self
    }
}

pub struct LabelMarker;
pub trait AsSystemLabel<Marker> {
    fn as_system_label(&self) -> SystemLabelId;
}
impl<L: SystemLabel> AsSystemLabel<LabelMarker> for L {
    fn as_system_label(&self) -> SystemLabelId {
        self.as_label()
    }
}
impl<F, Out, Params> AsSystemLabel<(Out, Params)> for F
where
    F: SystemParamFunction<Out, Params>,
{
    fn as_system_label(&self) -> SystemLabelId {
        SystemLabelId(TypeId::of::<F>(), std::any::type_name::<F>())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ShouldRun {
    Yes,
    No,
    YesAndCheckAgain,
    NoAndCheckAgain,
}
impl ShouldRun {
    pub fn once(mut ran: crate::system::Local<bool>) -> ShouldRun {
        if *ran {
            ShouldRun::No
        } else {
            *ran = true;
            ShouldRun::Yes
        }
    }
}

pub struct ReportExecutionOrderAmbiguities;
impl Resource for ReportExecutionOrderAmbiguities {}

pub trait StateData: Send + Sync + Clone + Eq + Debug + Hash + 'static {}
impl<T> StateData for T where T: Send + Sync + Clone + Eq + Debug + Hash + 'static {}

type Criteria = Box<dyn System<Out = ShouldRun>>;

pub trait IntoRunCriteria<Marker> {
    fn into_criteria(self) -> Criteria;
}
impl<F, Params> IntoRunCriteria<Params> for F
where
    F: SystemParamFunction<ShouldRun, Params>,
    Params: 'static,
{
    fn into_criteria(self) -> Criteria {
        Box::new(FunctionSystem::<F, ShouldRun, Params>::new(self))
    }
}

pub struct SystemDescriptor {
    system: Box<dyn System<Out = ()>>,
    labels: Vec<SystemLabelId>,
    before: Vec<SystemLabelId>,
    after: Vec<SystemLabelId>,
    criteria: Option<Criteria>,
    type_label: SystemLabelId,
}

pub trait IntoSystemDescriptor<Params>: Sized {
    fn into_descriptor(self) -> SystemDescriptor;
    fn with_run_criteria<Marker>(self, c: impl IntoRunCriteria<Marker>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.criteria = Some(c.into_criteria());
        d
    }
    fn label(self, l: impl SystemLabel) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.labels.push(l.as_label());
        d
    }
    fn before<Marker>(self, l: impl AsSystemLabel<Marker>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.before.push(l.as_system_label());
        d
    }
    fn after<Marker>(self, l: impl AsSystemLabel<Marker>) -> SystemDescriptor {
        let mut d = self.into_descriptor();
        d.after.push(l.as_system_label());
        d
    }
    fn ambiguous_with<Marker>(self, _: impl AsSystemLabel<Marker>) -> SystemDescriptor {
        self.into_descriptor()
    }
    fn ignore_all_ambiguities(self) -> SystemDescriptor {
        self.into_descriptor()
    }
}
impl IntoSystemDescriptor<()> for SystemDescriptor {
    fn into_descriptor(self) -> SystemDescriptor {
        self
    }
}
pub struct FnMarker;
impl<F, Params> IntoSystemDescriptor<(FnMarker, Params)> for F
where
    F: SystemParamFunction<(), Params>,
    Params: 'static,
{
    fn into_descriptor(self) -> SystemDescriptor {
        let type_label = SystemLabelId(TypeId::of::<F>(), std::any::type_name::<F>());
        SystemDescriptor {
            system: Box::new(FunctionSystem::<F, (), Params>::new(self)),
            labels: vec![],
            before: vec![],
            after: vec![],
            criteria: None,
            type_label,
        }
    }
}

#[derive(Default)]
pub struct SystemSet {
    systems: Vec<SystemDescriptor>,
}
impl SystemSet {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.systems.push(s.into_descriptor());
        self
    }
}

pub trait Stage: 'static {
    fn run(&mut self, world: &mut World);
    fn as_any_mut(&mut self) -> &mut dyn Any;
}

#[derive(Default)]
pub struct SystemStage {
    systems: Vec<SystemDescriptor>,
    order: Option<Vec<usize>>,
}
impl SystemStage {
    pub fn single_threaded() -> Self {
        Self::default()
    }
    pub fn parallel() -> Self {
        Self::default()
    }
    pub fn single<P>(s: impl IntoSystemDescriptor<P>) -> Self {
        Self::default().with_system(s)
    }
    pub fn with_system<P>(mut self, s: impl IntoSystemDescriptor<P>) -> Self {
        self.add_system(s);
        self
    }
    pub fn add_system<P>(&mut self, s: impl IntoSystemDescriptor<P>) -> &mut Self {
        self.systems.push(s.into_descriptor());
        self.order = None;
        self
    }
    pub fn add_system_set(&mut self, s: SystemSet) -> &mut Self {
        self.systems.extend(s.systems);
        self.order = None;
        self
    }
    fn compute_order(&self) -> Vec<usize> {
        let n = self.systems.len();
        let has = |i: usize, l: &SystemLabelId| {
            self.systems[i].type_label == *l || self.systems[i].labels.contains(l)
        };
        let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 0..n {
            for l in &self.systems[i].after {
                for j in 0..n {
                    if has(j, l) {
                        preds[i].push(j);
                    }
                }
            }
            for l in &self.systems[i].before {
                for j in 0..n {
                    if has(j, l) {
                        preds[j].push(i);
                    }
                }
            }
        }
        let seed = simcore::try_sim().map(|s| s.env.order_seed).unwrap_or(0);
        // Priority among systems that may run now. It must be the same on
        // every rank: bevy derives the order from the program alone.
        let mut seen: std::collections::BTreeMap<&'static str, u64> = Default::default();
        let prio: Vec<(u64, usize)> = (0..n)
            .map(|i| {
                let name = self.systems[i].type_label.1;
                let k = seen.entry(name).or_insert(0);
                *k += 1;
                if seed == 0 {
                    (0, i)
                } else {
                    let mut h = mix(seed, *k);
                    for b in name.bytes() {
                        h = mix(h, b as u64);
                    }
                    (h, i)
                }
            })
            .collect();
        let mut done = vec![false; n];
        let mut order = vec![];
        while order.len() < n {
            let next = (0..n)
                .filter(|i| !done[*i] && preds[*i].iter().all(|j| done[*j]))
                .min_by_key(|i| prio[*i])
                .unwrap_or_else(|| panic!("Found a dependency cycle among systems"));
            done[next] = true;
            order.push(next);
        }
        order
    }
}
impl Stage for SystemStage {
    fn run(&mut self, world: &mut World) {
        if self.order.is_none() {
            self.order = Some(self.compute_order());
        }
        let order = self.order.clone().unwrap();
        let should_run: Vec<bool> = self
            .systems
            .iter_mut()
            .map(|s| match s.criteria.as_mut() {
                None => true,
                Some(c) => matches!(c.run(world), ShouldRun::Yes),
            })
            .collect();
        let verbose = simcore::try_sim().map(|s| s.env.verbose).unwrap_or(false);
        for i in order.iter() {
            if should_run[*i] {
                if verbose && simcore::in_rank() {
                    let s = simcore::sim();
                    let m = format!("[{}] rank {} system {}", s.step, s.cur, self.systems[*i].system.name());
                    s.log.push(m);
                }
                self.systems[*i].system.run(world);
            }
        }
        for i in order.iter() {
            if should_run[*i] {
                self.systems[*i].system.apply(world);
            }
        }
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}

#[derive(Default)]
pub struct Schedule {
    stages: Vec<(StageLabelId, Box<dyn Stage>)>,
    criteria: Option<Criteria>,
}
impl Schedule {
    pub fn with_run_criteria<Marker>(mut self, c: impl IntoRunCriteria<Marker>) -> Self {
        self.criteria = Some(c.into_criteria());
        self
    }
    pub fn add_stage<S: Stage>(&mut self, label: impl StageLabel, stage: S) -> &mut Self {
        let l = label.as_label();
        assert!(!self.stages.iter().any(|s| s.0 == l), "Stage already exists: {:?}.", l);
        self.stages.push((l, Box::new(stage)));
        self
    }
    pub fn add_stage_after<S: Stage>(
        &mut self,
        target: impl StageLabel,
        label: impl StageLabel,
        stage: S,
    ) -> &mut Self {
        let t = target.as_label();
        let i = self
            .stages
            .iter()
            .position(|s| s.0 == t)
            .unwrap_or_else(|| panic!("Target stage does not exist: {:?}.", t));
        self.stages.insert(i + 1, (label.as_label(), Box::new(stage)));
        self
    }
    pub fn get_stage_mut<S: Stage>(&mut self, label: impl StageLabel) -> Option<&mut S> {
        let l = label.as_label();
        self.stages
            .iter_mut()
            .find(|s| s.0 == l)
            .and_then(|s| s.1.as_any_mut().downcast_mut())
    }
    pub fn stage<S: Stage, F: FnOnce(&mut S) -> &mut S>(
        &mut self,
        label: impl StageLabel,
        f: F,
    ) -> &mut Self {
        let l = label.as_label();
        let s = self
            .get_stage_mut::<S>(l)
            .unwrap_or_else(|| panic!("stage '{:?}' does not exist or is the wrong type", l));
        f(s);
        self
    }
    pub fn add_system_to_stage<P>(
        &mut self,
        label: impl StageLabel,
        s: impl IntoSystemDescriptor<P>,
    ) -> &mut Self {
        let l = label.as_label();
        self.get_stage_mut::<SystemStage>(l)
            .unwrap_or_else(|| panic!("Stage '{:?}' does not exist or is not a SystemStage", l))
            .add_system(s);
        self
    }
    pub fn add_system_set_to_stage(&mut self, label: impl StageLabel, s: SystemSet) -> &mut Self {
        let l = label.as_label();
        self.get_stage_mut::<SystemStage>(l).unwrap().add_system_set(s);
        self
    }
    pub fn run_once(&mut self, world: &mut World) {
        for (_, s) in self.stages.iter_mut() {
            s.run(world);
        }
    }
}
impl Stage for Schedule {
    fn run(&mut self, world: &mut World) {
        let go = match self.criteria.as_mut() {
            None => true,
            Some(c) => matches!(c.run(world), ShouldRun::Yes),
        };
        if go {
            self.run_once(world);
        }
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
}
