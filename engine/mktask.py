"""python3 mktask.py TASK DUMP OUT: run one verification task in its own process"""
import json
import os
import sys
import resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    name, dump, out = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import registry
    theory, mod, fn, args = registry.TASKS[name]
    import terms as T
    T.use(T.FPTheory() if theory == 'FP' else T.RNTheory())
    import importlib
    m = importlib.import_module(mod)
    from ctx import Task
    from mir import Mir
    t = Task(name, Mir(dump))
    getattr(m, fn)(t, *args)
    json.dump(t.result(), open(out + '.tmp', 'w'))
    os.rename(out + '.tmp', out)


main()
