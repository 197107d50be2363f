//! C09: descriptions of actors and of the system.
use coerce::actor::context::ActorContext;
use coerce::actor::describe::{ActorDescription, Describe, DescribeAll, DescribeOptions, DescribeResult};
use coerce::actor::message::{Handler, Message};
use coerce::actor::scheduler::{ActorScheduler, ActorType};
use coerce::actor::system::ActorSystem;
use coerce::actor::{Actor, ActorTags, BoxedActorRef, CoreActorRef, LocalActorRef, ToActorId};
use parking_lot::Mutex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::oneshot;
use tokio::time::Instant;
use vf::rt::{self, within};
use vf::*;

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Link {
    Spawn,
    Deferred,
    Attach,
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub enum Tags {
    Untouched,
    One(u8),
    Many(Vec<u8>),
    Own(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Spec {
    other: bool,
    tags: Tags,
    children: Vec<(Link, Spec)>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Opts {
    depth: Option<u8>,
    children: Option<u8>,
    attached: bool,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Step {
    DescribeAll(Opts),
    Describe(u8, Opts),
    Stop(u8),
    Busy(u8),
    Rest,
    Retag(u8, u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    roots: Vec<Spec>,
    steps: Vec<Step>,
}

#[derive(Clone)]
enum Ref {
    A(LocalActorRef<Node<false>>),
    B(LocalActorRef<Node<true>>),
}
impl Ref {
    fn boxed(&self) -> BoxedActorRef {
        match self {
            Ref::A(a) => a.clone().into(),
            Ref::B(a) => a.clone().into(),
        }
    }
    fn tell(&self, m: Do) {
        let _ = match self {
            Ref::A(a) => a.notify(m),
            Ref::B(a) => a.notify(m),
        };
    }
}
type Reg = Arc<Mutex<BTreeMap<usize, Ref>>>;

/// the model's view of one actor
#[derive(Debug, Clone)]
struct Info {
    id: String,
    path: String,
    other: bool,
    tags: Tags,
    link: Option<Link>,
    parent: Option<usize>,
    kids: Vec<usize>,
    alive: bool,
    busy: bool,
}

struct Node<const B: bool> {
    n: usize,
    reg: Reg,
    plan: Arc<Vec<Info>>,
    own: Option<u8>,
}
fn tags_of(t: &Tags, other: bool) -> ActorTags {
    match t {
        Tags::Untouched => if other { ActorTags::Tag("kind-b".into()) } else { ActorTags::None },
        Tags::One(x) => ActorTags::from(format!("tag{x}")),
        Tags::Many(v) => ActorTags::from(v.iter().map(|x| format!("tag{x}")).collect::<Vec<_>>()),
        Tags::Own(x) => ActorTags::from(format!("own{x}")),
    }
}
#[async_trait]
impl<const B: bool> Actor for Node<B> {
    const DEFAULT_TAGS: ActorTags = ActorTags::None;
    fn tags(&self, ctx: &ActorContext) -> ActorTags {
        match self.own {
            Some(x) => ActorTags::from(format!("own{x}")),
            None => ctx.tags(),
        }
    }
    async fn started(&mut self, ctx: &mut ActorContext) {
        let me = self.plan[self.n].clone();
        match &me.tags {
            Tags::Own(x) => self.own = Some(*x),
            Tags::Untouched if !B => {}
            t => ctx.set_tags(tags_of(t, B)),
        }
        let r: BoxedActorRef = ctx.boxed_actor_ref();
        let r = if B { Ref::B(r.as_actor().unwrap()) } else { Ref::A(r.as_actor().unwrap()) };
        self.reg.lock().insert(self.n, r);
        for k in me.kids {
            let kid = &self.plan[k];
            if kid.other {
                add::<B, true>(self, kid.link.unwrap(), k, ctx).await;
            } else {
                add::<B, false>(self, kid.link.unwrap(), k, ctx).await;
            }
        }
    }
}
fn add<'a, const P: bool, const C: bool>(p: &'a Node<P>, link: Link, k: usize, ctx: &'a mut ActorContext) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send + 'a>> {
    Box::pin(async move {
        let id = p.plan[k].id.to_actor_id();
        let n = Node::<C> { n: k, reg: p.reg.clone(), plan: p.plan.clone(), own: None };
        match link {
            Link::Spawn => {
                ctx.spawn(id, n).await.expect("spawn");
            }
            Link::Deferred => {
                ctx.spawn_deferred(id, n).expect("spawn");
            }
            Link::Attach => {
                let sys = ctx.system().clone();
                let r = sys.new_actor(id, n, ActorType::Anonymous).await.expect("spawn");
                ctx.attach_child_ref(r.into());
            }
        }
    })
}
#[derive(Clone, Copy)]
enum Do {
    Busy,
    Retag(u8),
}
impl Message for Do {
    type Result = ();
}
const BUSY: u64 = 1200;
#[async_trait]
impl<const B: bool> Handler<Do> for Node<B> {
    async fn handle(&mut self, m: Do, ctx: &mut ActorContext) {
        match m {
            Do::Busy => tokio::time::sleep(Duration::from_secs(BUSY)).await,
            Do::Retag(x) => {
                self.own = None;
                ctx.set_tags(format!("tag{x}"));
            }
        }
    }
}

fn flatten(case: &Case, system: &str) -> (Vec<Info>, Vec<usize>) {
    fn go(v: &mut Vec<Info>, s: &Spec, id: String, base: &str, link: Option<Link>, parent: Option<usize>, system: &str) -> usize {
        let n = v.len();
        // attached actors are created on their own, directly under the system
        let base = if link == Some(Link::Attach) { system } else { base };
        let path = format!("{base}/{id}");
        v.push(Info { id, path: path.clone(), other: s.other, tags: s.tags.clone(), link, parent, kids: vec![], alive: true, busy: false });
        for (i, (l, c)) in s.children.iter().enumerate() {
            let k = go(v, c, format!("n{i}"), &path, Some(*l), Some(n), system);
            v[n].kids.push(k);
        }
        n
    }
    let mut v = vec![];
    let roots = case.roots.iter().enumerate().map(|(i, s)| go(&mut v, s, format!("r{i}"), system, None, None, system)).collect();
    (v, roots)
}

struct Judge<'a> {
    m: &'a [Info],
    o: &'a Opts,
    ctx_ids: HashSet<u64>,
    seen: usize,
    unanswered: usize,
}
impl<'a> Judge<'a> {
    fn any_busy(&self, n: usize) -> bool {
        self.m[n].alive && (self.m[n].busy || self.m[n].kids.iter().any(|k| self.any_busy(*k)))
    }
    fn type_name(&self, n: usize) -> &'static str {
        if self.m[n].other { Node::<true>::type_name() } else { Node::<false>::type_name() }
    }
    fn description(&mut self, n: usize, d: &ActorDescription, level: usize) -> Result<(), Fail> {
        let i = &self.m[n];
        self.seen += 1;
        ensure!(&*d.actor_id == i.id, "actor {} is described with the id {}", i.path, d.actor_id);
        ensure!(&*d.path == i.path, "actor {} is described with the path {}", i.path, d.path);
        ensure!(d.actor_type_name == self.type_name(n), "actor {} is described as a {}", i.path, d.actor_type_name);
        ensure!(d.tags == tags_of(&i.tags, i.other), "actor {} is described with tags {:?}, it has {:?}", i.path, d.tags, tags_of(&i.tags, i.other));
        ensure!(self.ctx_ids.insert(d.actor_context_id), "actor {} is described with the context id {} of another actor", i.path, d.actor_context_id);
        ensure!(i.alive && !i.busy, "actor {} is described although it cannot answer", i.path);
        let empty = vec![];
        let got = d.supervised.as_ref().map_or(&empty, |s| &s.actors);
        let deep = self.o.depth.map_or(true, |m| level + 1 <= m as usize);
        let mut want: Vec<usize> = vec![];
        if deep {
            for k in &i.kids {
                let kid = &self.m[*k];
                let attached = kid.link == Some(Link::Attach);
                if (kid.alive || attached) && (self.o.attached || !attached) {
                    want.push(*k);
                }
            }
        }
        let limit = self.o.children.map_or(usize::MAX, |c| c as usize).min(want.len());
        ensure!(
            got.len() == limit,
            "{} has {} describable children, {} are described (limit {:?}): {:?}", i.path, want.len(), got.len(), self.o.children, got
        );
        let mut left = want.clone();
        for g in got {
            let id = match g {
                DescribeResult::Ok(d) => &d.actor_id,
                DescribeResult::Err { actor_id, .. } | DescribeResult::Timeout { actor_id, .. } => actor_id,
            };
            let Some(pos) = left.iter().position(|k| self.m[*k].id == **id) else {
                return Err(Fail::Safety(format!("{} is described as having the child {id} (once too often)", i.path)));
            };
            let k = left.remove(pos);
            self.result(k, g, level + 1)?;
        }
        Ok(())
    }
    fn result(&mut self, n: usize, r: &DescribeResult, level: usize) -> Result<(), Fail> {
        let i = &self.m[n];
        let who = |p: &str| p == i.path || format!("{p}/{}", i.id) == i.path;
        match r {
            DescribeResult::Ok(d) => self.description(n, d, level),
            DescribeResult::Err { actor_path, actor_type, error, .. } => {
                self.unanswered += 1;
                ensure!(!i.alive, "{} is alive but described as failing with {error:?}", i.path);
                ensure!(who(actor_path) && actor_type == self.type_name(n), "the ended actor {} is reported as {actor_path} of type {actor_type}", i.path);
                Ok(())
            }
            DescribeResult::Timeout { actor_path, actor_type, .. } => {
                self.unanswered += 1;
                ensure!(self.any_busy(n), "{} could answer but is reported as timed out", i.path);
                ensure!(who(actor_path) && actor_type == self.type_name(n), "the busy actor {} is reported as {actor_path} of type {actor_type}", i.path);
                Ok(())
            }
        }
    }
}

fn options(o: &Opts) -> Arc<DescribeOptions> {
    Arc::new(DescribeOptions {
        max_depth: o.depth.map(|d| d as usize),
        max_children: o.children.map(|d| d as usize),
        child_describe_timeout: None,
        child_describe_attached: o.attached,
    })
}
/// every description has to be back after this long, far above the built-in time limits
const PATIENCE: Duration = Duration::from_secs(120);

async fn execute(case: &Case) -> CaseResult {
    let sys = ActorSystem::new();
    let name = sys.system_name().to_string();
    let (mut m, roots) = flatten(case, &name);
    let plan = Arc::new(m.clone());
    let reg: Reg = Default::default();
    for r in &roots {
        let id = m[*r].id.clone();
        if m[*r].other {
            sys.new_actor(id, Node::<true> { n: *r, reg: reg.clone(), plan: plan.clone(), own: None }, ActorType::Tracked).await.expect("root");
        } else {
            sys.new_actor(id, Node::<false> { n: *r, reg: reg.clone(), plan: plan.clone(), own: None }, ActorType::Tracked).await.expect("root");
        }
    }
    rt::settle(10).await;
    let refs = reg.lock().clone();
    ensure!(refs.len() == m.len(), "{} of {} actors started", refs.len(), m.len());
    let (mut described, mut unanswered) = (0, 0);
    let mut busy_since: Option<Instant> = None;
    fn kill(m: &mut Vec<Info>, n: usize) {
        m[n].alive = false;
        for k in m[n].kids.clone() {
            kill(m, k);
        }
    }
    fn any_busy(m: &[Info], n: usize) -> bool {
        m[n].alive && (m[n].busy || m[n].kids.iter().any(|k| any_busy(m, *k)))
    }
    for s in &case.steps {
        if m.is_empty() && !matches!(s, Step::DescribeAll(_)) {
            continue;
        }
        if busy_since.map_or(false, |b| b.elapsed() > Duration::from_secs(BUSY / 2)) {
            rt::settle(BUSY * 1000).await;
            m.iter_mut().for_each(|i| i.busy = false);
            busy_since = None;
        }
        match s {
            Step::Rest => {
                rt::settle(BUSY * 1000 + 1000).await;
                m.iter_mut().for_each(|i| i.busy = false);
                busy_since = None;
            }
            Step::Busy(n) => {
                let n = *n as usize % m.len();
                if m[n].alive && !m[n].busy {
                    refs[&n].tell(Do::Busy);
                    m[n].busy = true;
                    busy_since.get_or_insert(Instant::now());
                    rt::settle(5).await;
                }
            }
            Step::Retag(n, x) => {
                let n = *n as usize % m.len();
                if m[n].alive && !m[n].busy {
                    refs[&n].tell(Do::Retag(*x));
                    m[n].tags = Tags::One(*x);
                    rt::settle(5).await;
                }
            }
            Step::Stop(n) => {
                let n = *n as usize % m.len();
                let parent_busy = m[n].parent.map_or(false, |p| m[p].busy);
                if m[n].alive && !any_busy(&m, n) && !parent_busy {
                    let _ = within("stop", refs[&n].boxed().stop()).await?;
                    rt::settle(5).await;
                    kill(&mut m, n);
                }
            }
            Step::Describe(n, o) => {
                let n = *n as usize % m.len();
                if !m[n].alive || m[n].busy {
                    continue;
                }
                let (tx, rx) = oneshot::channel();
                let b = refs[&n].boxed();
                let r = b.describe(Describe { options: options(o), sender: Some(tx), current_depth: 0 });
                ensure!(r.is_ok(), "describing a running actor failed: {r:?}");
                let d = match tokio::time::timeout(PATIENCE, rx).await {
                    Ok(Ok(d)) => d,
                    Ok(Err(_)) => return Err(Fail::Safety(format!("the description of {} was dropped", m[n].path))),
                    Err(_) => return Err(Fail::Safety(format!("the description of {} was never returned", m[n].path))),
                };
                let mut j = Judge { m: &m, o, ctx_ids: Default::default(), seen: 0, unanswered: 0 };
                j.description(n, &d, 0)?;
                described += j.seen;
                unanswered += j.unanswered;
            }
            Step::DescribeAll(o) => {
                let (tx, rx) = oneshot::channel();
                sys.scheduler().notify(DescribeAll { options: options(o), sender: tx }).map_err(|e| Fail::Safety(format!("{e:?}")))?;
                let all = match tokio::time::timeout(PATIENCE, rx).await {
                    Ok(Ok(d)) => d,
                    _ => return Err(Fail::Safety("the description of the system was never returned".into())),
                };
                let mut j = Judge { m: &m, o, ctx_ids: Default::default(), seen: 0, unanswered: 0 };
                let mut left: Vec<usize> = roots.iter().copied().filter(|r| m[*r].alive).collect();
                let mut scheduler = 0;
                for r in &all {
                    if let DescribeResult::Ok(d) = r {
                        if d.actor_type_name == ActorScheduler::type_name() {
                            scheduler += 1;
                            continue;
                        }
                    }
                    let id = match r {
                        DescribeResult::Ok(d) => &d.actor_id,
                        DescribeResult::Err { actor_id, .. } | DescribeResult::Timeout { actor_id, .. } => actor_id,
                    };
                    let Some(p) = left.iter().position(|k| m[*k].id == **id) else {
                        return Err(Fail::Safety(format!("the system is described with the tracked actor {id}, which is not there or was described before")));
                    };
                    let k = left.remove(p);
                    if let DescribeResult::Timeout { .. } = r {
                        ensure!(m[k].busy, "the tracked actor {} can answer, although a descendant cannot, but is reported as timed out", m[k].path);
                    }
                    j.result(k, r, 1)?;
                }
                ensure!(left.is_empty(), "tracked actors missing from the description of the system: {:?}", left.iter().map(|k| &m[*k].path).collect::<Vec<_>>());
                ensure!(scheduler <= 1, "the scheduler is described {scheduler} times");
                described += j.seen;
                unanswered += j.unanswered;
            }
        }
    }
    Ok(CaseOut::new(described >= 4)
        .label(unanswered > 0, "busy or ended actor reported")
        .label(m.iter().any(|i| i.link == Some(Link::Attach)), "attached children")
        .label(m.iter().any(|i| !i.alive), "stopped actors"))
}

fn tags() -> impl Strategy<Value = Tags> {
    prop_oneof![
        3 => Just(Tags::Untouched),
        2 => (0u8..9).prop_map(Tags::One),
        1 => prop::collection::vec(0u8..9, 0..4).prop_map(Tags::Many),
        1 => (0u8..9).prop_map(Tags::Own),
    ]
}
fn spec() -> BoxedStrategy<Spec> {
    let link = || prop_oneof![3 => Just(Link::Spawn), 2 => Just(Link::Deferred), 2 => Just(Link::Attach)];
    let leaf = (any::<bool>(), tags()).prop_map(|(other, tags)| Spec { other, tags, children: vec![] });
    leaf.prop_recursive(4, 16, 4, move |inner| {
        (any::<bool>(), tags(), prop::collection::vec((link(), inner), 0..4)).prop_map(|(other, tags, children)| Spec { other, tags, children })
    })
    .boxed()
}
fn opts() -> impl Strategy<Value = Opts> {
    (prop_oneof![2 => Just(None), 2 => (0u8..5).prop_map(Some)], prop_oneof![6 => Just(None), 2 => (0u8..4).prop_map(Some), 1 => (4u8..90).prop_map(Some)], prop::bool::weighted(0.7))
        .prop_map(|(depth, children, attached)| Opts { depth, children, attached })
}
struct Det;
impl Part for Det {
    type Case = Case;
    fn name(&self) -> &'static str {
        "describe"
    }
    fn rule(&self) -> &'static str {
        "0-3 (sometimes up to 79) tracked actors with generated trees, sometimes wide ones (spawned, deferred and attached children, two actor types, tags), 1-8 steps: describe the system or an actor with generated options, stop, retag or occupy an actor, wait; each description compared node by node with the model tree; non-trivial: at least four actors described."
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let step = prop_oneof![
            4 => opts().prop_map(Step::DescribeAll),
            4 => (any::<u8>(), opts()).prop_map(|(n, o)| Step::Describe(n, o)),
            2 => any::<u8>().prop_map(Step::Stop),
            2 => any::<u8>().prop_map(Step::Busy),
            1 => Just(Step::Rest),
            1 => (any::<u8>(), 0u8..9).prop_map(|(n, x)| Step::Retag(n, x)),
        ];
        let leaf = (any::<bool>(), tags()).prop_map(|(other, tags)| Spec { other, tags, children: vec![] }).boxed();
        let link = prop_oneof![Just(Link::Spawn), Just(Link::Deferred), Just(Link::Attach)];
        let wide = (any::<bool>(), tags(), prop::collection::vec((link, leaf.clone()), 10..80)).prop_map(|(other, tags, children)| Spec { other, tags, children }).boxed();
        let roots = prop_oneof![
            24 => prop::collection::vec(spec(), 0..4),
            1 => (spec(), wide.clone()).prop_map(|(mut a, b)| {
                a.children.push((Link::Spawn, b));
                vec![a]
            }),
            1 => wide.prop_map(|a| vec![a]),
            1 => prop::collection::vec(leaf, 10..80),
        ];
        (roots, prop::collection::vec(step, 1..9)).prop_map(|(roots, steps)| Case { roots, steps }).boxed()
    }
    fn cases(&self, t: Tier) -> u32 {
        if t == Tier::Quick { 8_000 } else { 150_000 }
    }
    fn check(&self, c: &Case) -> CaseResult {
        block_on_paused(async { tokio::time::timeout(Duration::from_secs(200_000), execute(c)).await.unwrap_or_else(|_| Err(Fail::Safety("case never completed".into()))) })
    }
}

pub fn run() {
    Runner::from_args("C09").part(Det).finish()
}
