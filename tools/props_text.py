"""The text of the properties: generates properties.jsonl and MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.props import P

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))


H = 'include/adevs/'
prop('C01', 'The event schedule is a faithful priority queue',
     'After any sequence of insertions, reschedulings, removals and pops, the event schedule holds exactly the models whose last scheduled time is finite, each once and with that time. The smallest scheduled time is the one reported and the model it reports as next has it; an empty schedule reports infinity and no model. This holds for any number of models, any pattern of equal times, and the schedule never touches memory outside its storage.',
     ['histories', 'inputs'], 'every sequence of schedule operations on any number of models with any totally ordered time values',
     'sched_test drives one fixed sequence of a few models; heap order after arbitrary interleavings of growth, decrease, increase, removal from the middle and ties is never sampled.',
     [H + 'sched.h'], [('schedule, removeMinimum, percolate_up, percolate_down, enlarge', H + 'sched.h')],
     [('heap, size, capacity', 'binary heap of (time, model)', H + 'sched.h'), ('q_index', 'position of a model in the heap, 0 if absent', H + 'models.h')])
prop('C02', 'Imminent set is exactly the models with the minimum time',
     'When asked for the imminent models, the schedule answers with every model whose scheduled time equals the minimum and with no other, each exactly once. With nothing scheduled, or when the minimum is infinite, the answer is empty. Asking does not change the schedule.',
     ['inputs', 'histories'], 'every heap content and shape, any number of ties',
     'the tests look at imminent sets of two or three models; ties scattered through deep subtrees are not reached.',
     [H + 'sched.h'], [('visitImminent', H + 'sched.h')])
prop('C03', 'Graph holds exactly the edges and models added and not removed',
     'Outside of a simulation step, a graph contains an edge exactly while it has been connected more often than disconnected, and a model exactly while it has been added more often than removed; only the edge or model named by the call is affected. Removing the last instance of a model also removes every edge to it. Removing a pin takes one instance of each edge that leaves it.',
     ['histories', 'inputs'], 'every history of connect, disconnect, add, remove and remove-pin calls on any pins and models',
     'graph_test uses one small hand-made graph; counts above two, removal of edges in the middle of long lists, and effects on unrelated edges are not sampled.',
     [H + 'graph.h'], [('connect, disconnect, add_atomic, remove_atomic, remove_pin', H + 'graph.h')],
     [('pin_to_atomic, pin_to_pin', 'edges with instance counts', H + 'graph.h'), ('atomic_instance_count, models', 'models with instance counts', H + 'graph.h')])
prop('C04', 'Routing finds every reachable model, once per path, with the last pin',
     'Routing an event from a pin of a graph without pin cycles yields one entry for every distinct path that ends with a pin-to-model edge, naming that model and the last pin of the path, and no other entry. Entries are added behind what the result list already holds. Routing changes nothing in the graph and always terminates.',
     ['inputs', 'configurations'], 'every acyclic graph and every starting pin',
     'the tests route through chains of one or two pins; diamonds, fan-out at several levels and unknown pins are not covered together.',
     [H + 'graph.h'], [('route', H + 'graph.h')])
prop('C05', 'Structure changes during a step are queued unchanged and in order',
     'While a simulation step is computing states, every request to change the graph is recorded, in the order made and with exactly its kind, pins and model, and leaves models, edges and routing as they were. Outside a step the same requests take effect at once and queue nothing.',
     ['histories', 'schedules'], 'every sequence of structural requests, in both modes',
     'dynamic_test uses a few scripted changes and never looks at the queue or at routing between the request and its application.',
     [H + 'graph.h'], [('queue_* and the provisional branch of each structural method', H + 'graph.h')],
     [('pending', 'queued operations', H + 'graph.h'), ('provisional', 'mode', H + 'graph.h')])
prop('C06', 'Coupled models flatten into the graph and can be taken out again',
     'A coupled model attached to a graph contributes exactly its components and couplings and those of its nested coupled models, each once; changes to an attached model reach the graph at once, changes to a detached one reach no graph. Removing a coupled model or a component takes out of the graph what attaching it put in, and nothing else.',
     ['histories', 'configurations'], 'every tree of coupled models and every history of changes before and after attachment',
     'the tests build one or two levels and remove at most one component; shared components and removal of deep hierarchies with couplings are not covered.',
     [H + 'models.h'], [('assign_to_graph, remove_from_graph, add_/remove_/create_coupling/remove_coupling', H + 'models.h')])
prop('C07', 'Each active model makes exactly the transition DEVS prescribes',
     'In a state-update step every model with input and no internal event due gets its external transition, with the elapsed time since its own last event; a model with input at its own event time gets the confluent transition; a model without input at its event time gets the internal transition. Every such model makes exactly one transition with exactly the input it received, and no other model makes any.',
     ['inputs', 'histories', 'configurations'], 'every set of active models, inputs and event times',
     'the tests compare traces of small models; coincidence of input and internal events across many models, and inputs withdrawn within a step, are not enumerated.',
     [H + 'simulator.h'], [('computeNextState', H + 'simulator.h')])
prop('C08', 'Simulation time and model clocks follow the time advance',
     'After a transition a model is next due its time advance after the time of the transition, never if that is infinite, and a negative time advance raises an error naming the model. The time of the next event is always the earliest time at which any model of the simulation is due, infinity if none is. Creating a simulator schedules every model of the graph from time zero.',
     ['inputs', 'histories'], 'every time advance function and history of events',
     'the tests use a few fixed time advances; zero, infinite and negative ones mixed over several models are not.',
     [H + 'simulator.h'], [('schedule, constructors, computeNextState', H + 'simulator.h')])
prop('C09', 'Every output reaches every routed model, with the right pin and value',
     'In an output step each due model without direct feed-through is asked for its output exactly once, and each output value, like each injected input, arrives as input once for each route from its pin, carrying the value and the last pin of the route, at exactly the models routed to. Models not due and not receiving anything stay untouched, and computing output again without a state update starts afresh.',
     ['inputs', 'configurations', 'histories'], 'every set of due models, outputs and graph',
     'the tests use fixed couplings; several outputs per model to overlapping receivers, repeated output computations and injected inputs together are not explored.',
     [H + 'simulator.h', H + 'graph.h'], [('computeNextOutput', H + 'simulator.h')])
prop('C10', 'Mealy outputs are consistent with the inputs finally received',
     'When an output step ends, the output of every model with direct feed-through is what it answers for exactly the input it ends up with: its plain output if due and without input, its confluent output if due with input, its external output if only with input. Output computed from superseded input is withdrawn from its receivers, and a cycle of such models is reported as an error.',
     ['inputs', 'schedules', 'configurations'], 'every acyclic network of Mealy models, in every evaluation order (order follows memory addresses)',
     'evaluation order depends on object addresses, so a test sees one order; re-evaluation of diamonds is not covered.',
     [H + 'simulator.h'], [('calculate_mealy_output, retract_mealy_output', H + 'simulator.h')])
prop('C11', 'Listeners are told of every output, input and state change exactly once',
     'Every registered listener is told of each output value, each input value and each state change exactly once, with the model, the value and the time of the event, and of nothing else. All inputs of a model are announced before its transition and its state change after it.',
     ['inputs', 'histories'], 'any number of listeners, any events',
     'the tests attach one listener and count few events.',
     [H + 'simulator.h'], [('computeNextOutput, computeNextState', H + 'simulator.h')])
prop('C12', 'Superdense time is a totally ordered clock with exact elapsed intervals',
     'Times compare lexicographically by real part and then by step, and all six comparisons agree with that order. Adding an interval with zero real part advances the step count, adding any other interval moves the real part and restarts the steps at those of the interval; and adding to a time the interval from it to a later time gives the later time back. Assignment forms give the same results as the plain forms, also when an object is combined with itself.',
     ['inputs'], 'every pair of times over double, int and long real parts (steps within range)',
     'the time tests check a few constants; the laws quantify over all pairs.',
     [H + 'time.h'], [('sd_time operators', H + 'time.h')])
prop('C13', 'Tolerant time comparison and arithmetic are consistent',
     'Two values of the fuzzy floating-point time type count as equal exactly when they differ by at most the tolerance scaled by the binary order of magnitude of the value that is larger in magnitude; otherwise they are ordered as their stored values are. The comparison is symmetric and all comparison operators agree with it. Arithmetic, conversions and assignments act on the stored value only.',
     ['inputs'], 'every pair of values and tolerances',
     'one test compares a handful of numbers.',
     [H + 'time.h', 'src/adevs.cpp'], [('fcmp', 'src/adevs.cpp'), ('double_fcmp operators', H + 'time.h')])
prop('C14', 'Zero, infinity, smallest step and sentinel of each time type are right',
     'For each supported time type infinity is at least as large as every time, zero is neutral, the sentinel is below zero, and the smallest step is zero for plain numeric times and the smallest positive step for superdense time.',
     ['configurations', 'inputs'], 'all seven time types, all time values',
     'tests only use these constants with double and superdense time.',
     [H + 'time.h'], [('adevs_inf, adevs_zero, adevs_epsilon, adevs_sentinel', H + 'time.h')])
prop('C15', 'Pins have unique identities that copies share',
     'Every newly created pin differs from all pins created before, even when pins are created concurrently; copies and assignments of a pin or a pin/value pair have the same identity and value as the source. The comparisons of pins form one consistent total order.',
     ['schedules', 'inputs', 'histories'], 'every number of pins created by any number of threads',
     'tests create a few pins on one thread.',
     [H + 'models.h', 'src/adevs.cpp'], [('pin_t, PinValue', H + 'models.h')])
prop('C16', 'Hybrid models integrate exactly between events and dispatch the right event',
     'A hybrid model advances its continuous state only to the state located by its solver, and lets the solver run no further than the next event. Events found in the continuous state and expiry of the discrete time advance lead to the matching internal, external or confluent discrete transition with the elapsed time, and output is produced exactly when such an event is due. An event that is only found when an input arrives is executed with that input, in the state located, and its output follows at once, before any further time passes.',
     ['inputs', 'histories'], 'every solver, event locator, discrete behaviour and interleaving of inputs',
     'tests integrate a few systems with fixed inputs.',
     [H + 'solvers/hybrid.h'], [('Hybrid::delta_int, delta_ext, delta_conf, output_func, ta', H + 'solvers/hybrid.h')])
prop('C17', 'Explicit integrators take the steps of their method and respect the limits',
     'A free step of the Runge-Kutta 4/5 or corrected Euler integrator is never longer than requested or than the configured maximum and makes progress; the state afterwards is the state before plus exactly the step of the method, which is consistent to its stated order, and its error estimate is within the tolerance. Advancing by an interval takes such steps that together cover exactly the interval. Destroying an integrator releases all storage it allocated.',
     ['inputs'], 'every system of equations of any size, state, step size, tolerance and interval (real arithmetic)',
     'solver tests compare trajectories of a few systems within a loose tolerance, so a wrong coefficient, an accepted bad step or a wrong last step passes.',
     [H + 'solvers/rk_45.h', H + 'solvers/corrected_euler.h'], [('integrate, advance, trial_step, constructor, destructor', H + 'solvers/rk_45.h'), ('integrate, advance, trial_step, constructor, destructor', H + 'solvers/corrected_euler.h')])
prop('C18', 'Event locators stop at the first event and never step past it',
     'Locating events in a step either reports no event or reports one; the step is never lengthened, and the state handed back is the state integrated (or, where interpolation is chosen, interpolated) for exactly the step handed back. If no event is reported no event function has changed sign over that step. If one is reported, exactly the event functions that changed sign over it are marked, and each of them is within tolerance of zero (or, for bisection in time, the step is within tolerance of an instant before which none had changed sign). Destroying a locator releases all storage it allocated.',
     ['inputs'], 'every system, event function, step, tolerance and solver',
     'tests locate a few smooth events.',
     [H + 'solvers/event_locators.h'], [('find_events of event_locator_impl, fast_event_locator, null_event_locator', H + 'solvers/event_locators.h')])
prop('C19', 'CVODE models step, restart and dispatch as the integrator answers',
     'A CVODE model is due at the end of the step its integrator took, measured from its last event. It is asked for output and makes its internal transition exactly when the integrator marked that step as an event; otherwise only time passes. An input restarts the integrator from the state and time of the last event, advances it to the time of the input, and leads to the confluent transition if the integrator finds an event there and to the external transition at that time otherwise. The wrapper never changes the state itself and releases exactly the vectors it made.',
     ['inputs', 'histories'], 'every integrator, state, event pattern and interleaving of inputs',
     'one test runs one bouncing ball without input.',
     [H + 'solvers/cvode.h'], [('CVODE::ta, delta_int, delta_ext, delta_conf, output_func, constructor, destructor', H + 'solvers/cvode.h')])
prop('C20', 'The implicit integrator solves the trapezoidal rule and respects the limits',
     'A free step of the implicit integrator is never longer than requested, planned or configured and makes progress; the state afterwards solves the equation of the trapezoidal rule for exactly the step returned, as far as KINSOL is told that equation, its exact derivative and no scaling, and a step that cannot be solved leaves the state alone. The next step is planned such that the difference between Euler\'s step and the trapezoidal one, as found now, stays within the tolerance, and is no longer than a step that had to be shortened to be solved. Advancing by an interval takes such steps that together cover exactly the interval. The integrator writes nothing but the state given and its own storage, and destroying it releases all it allocated.',
     ['inputs'], 'every system of equations of any size, with or without a Jacobian, state, step size, tolerance and interval (real arithmetic)',
     'tests integrate a few systems within a loose tolerance; a wrong derivative, a lost part of an interval or a step beyond the limit passes.',
     [H + 'solvers/trap.h'], [('trap: integrate, step, func, jac, advance, constructor, destructor', H + 'solvers/trap.h')])
prop('C21', 'A wrapped FMU is driven as its state machine allows and answers as the FMU does',
     'A ModelExchange object calls its FMU only as the FMI 2.0 state machine allows, in every order in which integrators, event locators and a Hybrid model call it. Its derivatives, event indicators, Jacobian and next time event are those of the FMU at the time and state asked for, with time itself as the last variable; trial steps leave the FMU where they ended, an integrator step that goes forward is completed there exactly once and an event the FMU asks for is due at once. Every initialisation and every internal, external or confluent event iterates until the FMU needs no new discrete states, copies its states back and takes up the time event it announced last. Variables are read and written by name with their type, and loading and destroying release everything but the FMU, and everything.',
     ['inputs', 'histories'], 'every FMU, state, time and order of calls',
     'its tests need compiled FMUs and the FMI library and are not even built here.',
     [H + 'solvers/fmi.h'], [('ModelExchange::der_func, state_event_func, time_event_func, postStep, postTrialStep, get_jacobian, iterate_events, init, the events, variables, constructor, destructor', H + 'solvers/fmi.h')])
prop('C22', 'Components added in a step come alive, removed ones fall silent',
     'Changes to the structure requested during a state-update step are all applied, in order, when the transitions are done and before the next event time is computed. A component that thereby joins the simulation is scheduled from the current time; one that thereby leaves it makes no further event and gets no further input; a component that stays keeps its schedule.',
     ['histories', 'schedules'], 'every sequence of structural changes made by transition functions',
     'dynamic tests add and remove a few single-instance components.',
     [H + 'simulator.h', H + 'graph.h'], [('computeNextState', H + 'simulator.h')])

prop('C23', 'The indexed schedule always knows the next model and its time',
     'The schedule of schedule2.h holds exactly the models added and not removed, each at the time advance it gave when it was added or last updated. get_minimum is the least of these times (infinity when there is none) and get_next a model that has it, the one remove_next takes out; adding an active model and removing or updating an inactive one are refused and change nothing, every request leaves all other models as they were, and update_all rebuilds the heap without moving any model in time. Its heap order and its index of positions hold after every request.',
     ['inputs', 'histories'], 'every history of requests, every number of models, every totally ordered time type with infinity',
     'its test does not compile against the current models and is switched off; it removed models at the ends only.',
     [H + 'schedule2.h'], [('Schedule::add, remove, update, remove_next, get_next, get_minimum, empty, size, clear, update_all, percolate_up, percolate_down', H + 'schedule2.h')])
NA = {}

LEVELS = {}


def main():
    claimed = [p for p in PROPS if p['id'] in P]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in claimed:
        i = p['id']
        cfg = P[i]
        checks.append(dict(property=i, quick_cmd='python3-vt checks/run.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt checks/run.py %s' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='deductive verification: contracts on the functions of /repo, verification conditions from the clang AST of the current source, discharged by z3/cvc5',
                           level=cfg.get('level', 'proof'),
                           level_note=cfg.get('note', 'Every obligation generated from the current source is discharged without bounds. ') +
                           ' Trusted: the VC generator in /verif/vc, clang 18 front end, z3/cvc5, models of the standard containers, mathematical reals for floating point unless stated. '
                           'A short bounded replay of the real code accompanies each run and is not counted as proof; functions whose shape the generator cannot treat fall back to that replay and are labelled bounded in the evidence.'))
    na = [dict(property=p['id'], reason=NA.get(p['id'], 'not yet under contract')) for p in PROPS if p['id'] not in P]
    m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version >/dev/null && mkdir -p evidence', checks=checks, not_applicable=na,
             notes='Contract-based deductive verification; see DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)




if __name__ == '__main__':
    main()
