"""Building drivers in the various execution modes."""
from hamilton import base, driver
from hamilton.execution import executors, grouping


def make_driver(mods, mode="builder", config=None, adapters=(), overrides_ok=False):
    config = dict(config or {})
    if mode == "legacy":
        ad = list(adapters) or None
        if ad is None:
            ad = base.DefaultAdapter() if hasattr(base, "DefaultAdapter") else base.SimplePythonGraphAdapter(base.DictResult())
        return driver.Driver(config, *mods, adapter=ad)
    if mode == "graph_adapter":
        return driver.Driver(config, *mods, adapter=[base.SimplePythonGraphAdapter(base.DictResult()), *adapters])
    b = driver.Builder().with_modules(*mods).with_config(config)
    if adapters:
        b = b.with_adapters(*adapters)
    if overrides_ok:
        b = b.allow_module_overrides()
    if mode == "builder":
        return b.build()
    b = b.enable_dynamic_execution(allow_experimental_mode=True)
    return configure_task(b, mode).build()


GROUPINGS = {
    "default": lambda: None,
    "nodes": grouping.GroupNodesIndividually,
    "blocks": grouping.GroupByRepeatableBlocks,
    "asone": grouping.GroupNodesAllAsOne,
    "level": grouping.GroupNodesByLevel,
}


def configure_task(b, mode):
    """mode: task[:grouping[:local[:remote]]]; executors: sync | thread<N> | process<N>"""
    parts = mode.split(":") + [None] * 4
    g, lo, rem = parts[1], parts[2], parts[3]
    gs = GROUPINGS[g or "default"]()
    if gs is not None:
        b = b.with_grouping_strategy(gs)
    if lo:
        b = b.with_local_executor(make_executor(lo))
    if rem:
        b = b.with_remote_executor(make_executor(rem))
    return b


def make_executor(s):
    if s.startswith("script"):  # script<max>=1.0.3.2
        mx, sc = s[6:].split("=")
        return ScriptedExecutor([int(x) for x in sc.split(".") if x], int(mx))
    if s == "sync":
        return executors.SynchronousLocalTaskExecutor()
    if s.startswith("thread"):
        return executors.MultiThreadingExecutor(max_tasks=int(s[6:]))
    if s.startswith("process"):
        return executors.MultiProcessingExecutor(max_tasks=int(s[7:]))
    raise ValueError(s)


class ScriptedExecutor(executors.TaskExecutor):
    """An executor whose tasks complete in a generated order: each submitted task carries a countdown of polls after which it runs
    (through the real synchronous executor) and completes."""

    def __init__(self, script, max_tasks):
        self.script, self.max_tasks = list(script) or [0], max_tasks
        self.active, self.k, self.inner, self.order = [], 0, executors.SynchronousLocalTaskExecutor(), []

    def init(self):
        self.active = []

    def finalize(self):
        pass

    def can_submit_task(self):
        return len([a for a in self.active if not a.done]) < self.max_tasks

    def submit_task(self, task):
        d = self.script[self.k % len(self.script)]
        self.k += 1
        f = _ScriptedFuture(self, task, d)
        self.active.append(f)
        return f


class _ScriptedFuture:
    def __init__(self, ex, task, delay):
        self.ex, self.task, self.delay, self.done, self.err, self.fut = ex, task, delay, False, None, None

    def get_state(self):
        from hamilton.execution.state import TaskState
        if not self.done:
            self.delay -= 1
            if self.delay >= 0:
                return TaskState.RUNNING
            try:
                self.fut = self.ex.inner.submit_task(self.task)
            except Exception as e:
                self.err = e
            self.ex.order.append(self.task.task_id)
            self.done = True
        return TaskState.FAILED if self.err is not None else self.fut.get_state()

    def get_result(self):
        if not self.done:
            return None
        if self.err is not None:
            raise self.err
        return self.fut.get_result()
