"""Drive featureflow nodes exactly as featureflow's Graph does, but with an
explicit schedule for the order in which the sources deliver their chunks."""
from collections import deque
from featureflow import Node
from featureflow.extractor import Graph


class Source(Node):
    """a root node: pushes the chunks it is given"""

    def __init__(self, needs=None):
        super(Source, self).__init__(needs=needs)

    def _process(self, data):
        for d in data:
            yield d


class Recorder(Node):
    def __init__(self, needs=None, on=None):
        super(Recorder, self).__init__(needs=needs)
        self.got = []
        self.on = on

    def _process(self, data):
        self.got.append(data)
        if self.on:
            self.on(data)
        return
        yield


def run_graph(nodes, feeds, schedule=None, step=None):
    """nodes: name -> Node (sources included); feeds: source name -> chunks;
    schedule: order of source names, one entry per delivery (the delivery after
    the last chunk ends the source).  step(name) is called after each delivery."""
    graph = Graph(**nodes)
    subscriptions = graph.subscriptions()
    queue = deque()
    gens = dict((k, nodes[k].process(v, queue=queue)) for k, v in feeds.items())
    left = dict((k, len(v) + 1) for k, v in feeds.items())
    if schedule is None:
        schedule = []
        while any(left[k] > schedule.count(k) for k in left):
            for k in left:
                if schedule.count(k) < left[k]:
                    schedule.append(k)

    def drain():
        while queue:
            key, fname, kwargs = queue.pop()
            for sub in subscriptions[key]:
                result = getattr(sub, fname)(**kwargs)
                if result is None:
                    continue
                for _ in result:
                    pass
    for name in schedule:
        try:
            next(gens[name])
        except StopIteration:
            pass
        drain()
        if step:
            step(name)
    for g in gens.values():
        for _ in g:
            drain()
    drain()
