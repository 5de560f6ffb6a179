"""Turning a transition graph printed by TLC into walks over the real code."""

from __future__ import annotations

import json
from collections import defaultdict, deque


def key(s):
    return json.dumps(s, sort_keys=True)


class Graph:
    def __init__(self, edges):
        """edges: dicts with s, o, x, t (source, operation, expected observation, target)."""
        self.adj = defaultdict(list)
        self.edges = []
        seen = set()
        for e in edges:
            k = (key(e["s"]), key(e["o"]), key(e["t"]), key(e["x"]))
            if k in seen:
                continue
            seen.add(k)
            i = len(self.edges)
            self.edges.append((k[0], e["o"], e["x"], k[2]))
            self.adj[k[0]].append(i)
        for s in self.adj:
            self.adj[s].sort(key=lambda i: key(self.edges[i][1]))

    def tour(self, starts, rng, maxlen=400):
        """Walks from the start states that together take every reachable edge."""
        todo = defaultdict(set)
        reach = set()
        stack = list(starts)
        while stack:
            s = stack.pop()
            if s in reach:
                continue
            reach.add(s)
            for i in self.adj[s]:
                todo[s].add(i)
                stack.append(self.edges[i][3])
        left = sum(map(len, todo.values()))
        while left:
            progress = False
            for start in starts:
                while True:
                    walk, s = [], start
                    while len(walk) < maxlen:
                        if todo[s]:
                            i = rng.choice(sorted(todo[s]))
                            todo[s].discard(i)
                            left -= 1
                            walk.append(i)
                            s = self.edges[i][3]
                            continue
                        path = self._path(s, todo)
                        if path is None:
                            break
                        walk += path
                        s = self.edges[path[-1]][3]
                    if not walk or not any(True for _ in walk):
                        break
                    progress = True
                    yield start, walk
                    if self._path(start, todo) is None and not todo[start]:
                        break
            if not progress:
                break

    def _path(self, s, todo):
        prev = {s: None}
        q = deque([s])
        while q:
            u = q.popleft()
            if u != s and todo[u]:
                path = []
                while prev[u] is not None:
                    i, p = prev[u]
                    path.append(i)
                    u = p
                return path[::-1]
            for i in self.adj[u]:
                v = self.edges[i][3]
                if v not in prev:
                    prev[v] = (i, u)
                    q.append(v)
        return None

    def random_walk(self, start, rng, length):
        walk, s = [], start
        for _ in range(length):
            if not self.adj[s]:
                break
            i = rng.choice(self.adj[s])
            walk.append(i)
            s = self.edges[i][3]
        return walk
