"""Which contracts decide which property."""
ALL = None
KINDS = ['double', 'int', 'long']


def timealg(*keys):
    return [('timealg:' + k, list(keys)) for k in KINDS]


NEXT = 'Simulator::computeNextState()'
P = {
    'C01': dict(groups=[('sched', ['Schedule::Schedule(unsignedint)', 'Schedule::percolate_up(unsignedint,T)', 'Schedule::percolate_down(unsignedint,T)',
                                   'Schedule::enlarge()', 'Schedule::schedule(Atomic*,T)', 'Schedule::removeMinimum()', 'Schedule::minPriority()',
                                   'Schedule::getMinimum()', 'Schedule::empty()', 'Schedule::getSize()'])], replay='sched'),
    'C02': dict(groups=[('sched', ['Schedule::visitImminent(unsignedint)', 'Schedule::visitImminent()'])], replay='sched'),
    'C03': dict(groups=[('graph', ['re:.*#immediate', 'Graph::Graph()', 'Graph::set_provisional(bool)'])], replay='graph'),
    'C04': dict(groups=[('graph', ['Graph::route(pin_t,list)'])], replay='graph'),
    'C05': dict(groups=[('graph', ['re:.*#queued', 're:.*#immediate', 'Graph::set_provisional(bool)'])], replay='graph'),
    'C06': dict(groups=[('coupled', None)], replay='coupled'),
    'C07': dict(groups=[('simulator:T', [NEXT])], replay='simulator'),
    'C08': dict(groups=[('simulator:C', ['Simulator::schedule(Atomic*,T)', 're:Simulator::Simulator', NEXT]), ('step', None)], replay='simulator'),
    'C09': dict(groups=[('output:O', None), ('output:E', None), ('step', None)], replay='simulator'),
    'C10': dict(groups=[('output:M', None)], replay='simulator'),
    'C11': dict(groups=[('simulator:L', [NEXT]), ('output:L', None)], replay='simulator'),
    'C22': dict(groups=[('simulator:R', [NEXT])], replay='simulator'),
    'C17': dict(groups=[('solvers', None)], replay='solvers'),
    'C16': dict(groups=[('hybrid', None)], replay='hybrid'),
    'C19': dict(groups=[('cvode', None)], replay='cvode'),
    'C20': dict(groups=[('trap', None)], replay='trap'),
    'C21': dict(groups=[('fmi', None)], replay='fmi'),
    'C23': dict(groups=[('sched2', None)], replay='sched2'),
    'C18': dict(groups=[('locators', None)], replay='solvers'),
    'C12': dict(groups=timealg('re:sd_time::'), replay='timealg'),
    'C13': dict(groups=timealg('re:double_fcmp::')[:1], replay='timealg'),
    'C14': dict(groups=timealg('re:.*adevs_'), replay='timealg'),
    'C15': dict(groups=timealg('re:pin_t::|PinValue::')[:1], replay='timealg'),
}
