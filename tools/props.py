"""Texts of the properties; tools/gen.py writes properties.jsonl and MANIFEST.json from them."""
# id: (title, statement, over, quantifier text, why tests can't, observe_at, what is decided)
P = {}


def prop(id, title, statement, over, qtext, why, decided, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(title=title, statement=statement, over=over.split(), qtext=qtext, why=why, decided=decided,
                 observe=list(observe), state=list(state))


prop('C01', 'A reaction conserves charge and elements and keeps its identity',
     'A reaction can only exist if both sides carry the same total charge (electrons and every other species included) and the '
     'same number of each element, with the anonymous collider M allowed only as often on one side as on the other. Each '
     'participant and each reaction keeps the identity it was built with, and the textual form always lists exactly the '
     'reactants and products of the reaction.',
     'inputs programs', 'every combination of reactants and products, any multiplicity, any charge or composition, in any order',
     'tests build a handful of reactions with one or two violations each; the law must hold for every stoichiometry',
     'the consistency check, the constructor, the composition of a species and the textual identity are compared with their '
     'specification over all paths', ['building a reaction', 'reading its string and participants'])
prop('C02', 'Stoichiometric coefficients agree between reactions and whole chemistries',
     'For every species and reaction the net coefficient is the number of times the species appears among the products minus the '
     'number of times it appears among the reactants, and the left-hand and right-hand coefficients are those two counts. The '
     'matrices and the electron and third-body vectors of a chemistry hold exactly these numbers, one row per reaction and one '
     'column per selected species, with zero where a species does not take part.',
     'inputs histories', 'every reaction, every chemistry, every selection of species and of disabled items, every side option',
     'tests check one small chemistry; the law is over every reaction network and every flag combination',
     'every function computing a coefficient, a vector or the matrix is compared with its specification over all paths',
     ['stoichiometric getters of reactions and chemistries'])
prop('C03', 'Species and reaction attributes are read converted, with documented defaults',
     'Reading an attribute returns the stored value converted to the documented type and unit system, the documented default where '
     'nothing was stored, and the documented error where the attribute is mandatory and missing. Rate coefficients follow the '
     'modified Arrhenius law of the stored parameters at the temperature they are asked for, and SI conversion multiplies by the '
     'factor of the stored unit and nothing else.',
     'inputs', 'every attribute of every species and reaction, stored or not, in every allowed unit, at every temperature',
     'tests read a few attributes of a few instances; every attribute/unit/default combination has to be right',
     'every getter, the rate law, and the tables of units, factors and defaults are compared with their specification',
     ['attribute getters', 'rate coefficient of a reaction'])
prop('C04', 'Attribute setters store only validated values',
     'Setting an attribute of a species or reaction, at construction or later, is accepted only for known attributes with a value '
     'of an allowed type and a unit of the allowed set, with a unit present wherever one is mandatory. A rejected call raises the '
     'documented error and leaves the object exactly as it was; an accepted one changes that attribute and its unit only.',
     'inputs histories', 'every attribute, value type and unit, in every sequence of calls',
     'tests try a few wrong attributes; the rejection and the absence of side effects must hold for every input and history',
     'constructor and setters are compared with their specification (raised errors, stored fields), and a dataflow rule shows no '
     'field is stored before the last check', ['set attribute calls', 'construction'])
prop('C05', 'A chemistry holds a consistent, uniquely identified set of species and reactions',
     'A chemistry can only be built if species identifiers, species names, reaction identifiers and reactions themselves are '
     'unique, every participant of every reaction is one of its species, every declared return species of wall collisions is '
     'present, and every conservation check passes. Otherwise construction fails with the documented error, and every lookup by '
     'identifier, name, text or instance returns the one matching member or raises the documented error.',
     'inputs', 'every list of species and reactions, every file, every lookup key',
     'tests feed a few broken chemistries; the check must reject every inconsistent one and accept every consistent one',
     'construction, the consistency check and the lookups are compared with their specification over all paths',
     ['constructing a chemistry', 'lookups'])
prop('C06', 'Disabling is all-or-nothing and resetting restores the full chemistry',
     'A request to disable species or reactions either takes full effect or, when it is refused, raises the documented error and '
     'changes nothing. Resetting afterwards enables everything again, whatever sequence of requests came before, and never '
     'touches protection, attributes or membership.',
     'histories inputs', 'every sequence of disable, protect and reset requests, including refused ones',
     'tests run short sequences; atomicity has to hold on every path and history',
     'disable and reset are compared with their specification (stored state and raised errors on every path), and a rule shows '
     'that nothing is stored before the last refusal', ['disable', 'reset', 'state after a refusal'])
prop('C07', 'Protected species are never disabled',
     'No request, direct or through the cascade, ever disables a species that is protected, and a protected species stays among '
     'the enabled ones until protection is changed. Protection accepts members of the chemistry only and a refused protection '
     'request changes nothing.',
     'histories inputs', 'every chemistry, every set of protected species, every disable request',
     'tests protect one species in one network; cascades in arbitrary networks cannot be sampled',
     'disable with its cascade and the protection functions are compared with their specification',
     ['disable', 'set protected species'])
prop('C08', 'Disabling cascades until the remaining network is closed',
     'After species or reactions are disabled, every reaction with a disabled participant is disabled too, and every species '
     'no longer taking part in any enabled reaction is disabled as well, repeatedly until nothing changes. Nothing else is '
     'disabled, and in a chemistry with charges the last positive ion cannot be lost.',
     'inputs histories', 'every reaction network and every request',
     'tests follow cascades of a few steps in one network; the fixed point must be right for every network',
     'the recursive cascade and its seeds are compared with their specification over all paths', ['disable', 'enabled lists'])
prop('C09', 'Getters of a chemistry select and align their entries by the same flags',
     'Every getter of a chemistry returns one entry for each species or reaction selected by its flags, in the order of the '
     'chemistry, indexed by identifier, so that results obtained with equal flags line up entry by entry. Disabled, special and '
     'protected items are included exactly when the corresponding flag says so, and the values are those of the underlying '
     'species and reactions or of an active override.',
     'inputs histories', 'every getter, every flag combination, every chemistry and disabling history',
     'tests compare a few getters on one chemistry; alignment must hold for all flag combinations and states',
     'each getter, the masks and the descriptive tables are compared with their specification', ['getters', 'tables'])
prop('C10', 'Dumped chemistry state loads back to the same state',
     'Dumping the state of a chemistry and loading it restores protection, disabled items and overridden attributes, and loading refuses a dump made for a different source file unless told not to check. Comparing a '
     'chemistry with a dump reports equality exactly when the states agree.',
     'inputs histories', 'every state a chemistry can be brought into, every dump file',
     'tests dump and load one or two states; the round trip must hold for every state',
     'writer, reader, hash and comparison are compared with their specification; the keys written and read are compared',
     ['dump', 'load', 'coherence check'])
prop('C11', 'A copied chemistry is independent of its original',
     'A copy of a chemistry has the same members, protection, disabled items and overrides, is of the same kind, and no later '
     'change to either of the two is visible in the other.',
     'histories', 'every state at copy time and every later sequence of changes to either',
     'tests change one thing after copying; sharing of any mutable part must be excluded for all of them',
     'the copy function is compared with its specification; an alias rule shows that no mutable field is shared',
     ['copy', 'state of either object'])
prop('C12', 'Temporary attribute overrides layer over the members without changing them',
     'Overriding an attribute of a species or reaction in a chemistry affects only that attribute of that member in what the '
     'chemistry reports, never the member itself; a further override replaces the earlier one, and resetting one attribute brings '
     'back exactly the original values. Unknown attributes or members are refused with the documented error and change nothing.',
     'histories inputs', 'every sequence of overrides and resets over all attributes and members',
     'tests set and reset single values; layering must hold for every history',
     'override setters, resets and every getter that honours them are compared with their specification',
     ['override setters', 'getters'])
prop('C13', 'Wall sticking and return coefficients describe where stuck species go',
     'A chemistry reports for each species the sticking and return coefficients it was given or overridden with, as numbers, with '
     'documented defaults, no returns for a species that does not stick, and no returned species that is disabled. The return '
     'matrix holds for each pair of selected species how many of the row species return per stuck column species, zero '
     'elsewhere, in the order of the selected species.',
     'inputs configurations', 'every combination of sticking and return coefficients, overrides, flags and disabled species',
     'tests use one chemistry with two sticking species; the matrix must be right for all',
     'the getters, the override path and the return matrix are compared with their specification',
     ['sticking and return getters', 'return matrix'])
prop('X14', 'What is written to XML is what is read back',
     'Writing a chemistry to XML and parsing it gives the same species and reactions, with every attribute, unit, state and '
     'identifier preserved, and identifiers assigned by the builder are unique and follow the sorted order. An existing file is '
     'overwritten only on request.',
     'inputs', 'every species and reaction, every attribute value, every identifier',
     'tests round-trip one file; each attribute and special character must survive',
     'writer and reader are compared with their specification; the tags written are compared with the tags read',
     ['XML files', 'parsed objects'])
prop('X15', 'The XML builder accepts only valid, new and consistent members',
     'Adding a species or a reaction to a builder from attributes, instances, files or other sources validates it as a species or '
     'reaction would be validated, refuses duplicates as documented, and adds exactly one element on success and none on failure. '
     'The attributes recorded are those given, with only documented defaults filled in.',
     'inputs histories', 'every sequence of additions from every source',
     'tests add a few members; every source and failure path must keep the builder consistent',
     'each adding function is compared with its specification (errors, elements appended)', ['builder contents'])
prop('K16', 'Every reaction is assigned to the one documented class it belongs to',
     'The classification assigns each reaction exactly once, to the first documented class whose conditions its reactants and '
     'products satisfy, and reports classes in the documented order with their reactions sorted by the documented key. Species are '
     'sorted by the documented key, and neither sorting nor classification loses or duplicates a member.',
     'inputs', 'every reaction of every chemistry, in any order',
     'tests classify one reaction per class; overlaps and ordering must be right for every reaction',
     'classification, both sort keys and the table of classes are compared with their specification', ['classified reactions'])
prop('L17', 'LaTeX output states the same species, numbers and rates as the data',
     'The LaTeX form of a species shows its composition, charge and state, numbers keep their value up to the documented rounding, '
     'and a rate expression shows the parameters of the reaction and omits only neutral factors. Tables contain one row per entry '
     'and one column per requested quantity in the requested order, with captions, notes and labels where they were put.',
     'inputs', 'every species name, number, rate and table',
     'tests render a few strings; formatting must be faithful for all values',
     'every formatting function is compared with its specification', ['rendered text'])
prop('L18', 'Annotated tables show every value of the data they annotate',
     'Printing a vector or matrix of a chemistry with annotation keeps every value in its place, labels each row and column with '
     'the species or reaction it belongs to, and colours it by the documented status; without annotation only labels change. The '
     'data handed in are not modified.',
     'inputs configurations', 'every shape of data, every chemistry state',
     'tests print two arrays; labelling must be right for every shape',
     'the table functions are compared with their specification', ['printed tables'])
prop('M18', 'Model parameters are validated as a whole and never become inconsistent',
     'Model parameters can only be built from a complete, correctly typed and mutually consistent set of values, with feeds and '
     'power series checked entry by entry, and any wrong value raises the documented error. Afterwards they behave as a read-only '
     'mapping whose values, lengths and iteration agree with each other and do not share mutable data with the input.',
     'inputs', 'every mapping of parameters and every wrong value in it',
     'tests try some wrong values; every parameter must be checked for every kind of error',
     'constructor, type checks and mapping functions are compared with their specification', ['construction', 'reading'])
prop('E19', 'The species balance counts every production and loss exactly once',
     'The time derivative of each density is the sum of its volumetric reaction, flow and wall terms plus the documented correction '
     'at the minimal density, each built from the same rates and fluxes the model reports. Reaction rates are the rate '
     'coefficient times the densities of all reactants, including the third body and electrons, to the power of their '
     'multiplicity.',
     'inputs configurations', 'every state vector, chemistry and parameter set',
     'tests evaluate a few states; the terms must be complete and correctly signed for all',
     'every term and their sum are compared with their specification as polynomials over the same quantities',
     ['derivatives and source terms'])
prop('E20', 'The electron energy balance contains each documented gain and loss once',
     'The time derivative of the electron energy density is the absorbed power minus elastic, inelastic, wall and sheath losses '
     'plus the gain and loss of electrons and the documented correction, with the power interpolated from the given time '
     'series. Each term uses the documented physical constants and masses.',
     'inputs configurations', 'every state vector, time, chemistry and parameter set',
     'tests compare some values; each coefficient and sign must be right for all inputs',
     'every term and their sum are compared with their specification as polynomials over the same quantities',
     ['energy derivatives and terms'])
prop('E21', 'Transport quantities follow the documented formulas',
     'Temperatures, pressures, mean speeds, cross sections, mean free paths, diffusivities, wall fluxes and Debye length are the '
     'documented functions of the state, with documented floors and the separate treatment of neutrals, positive and negative '
     'ions. An intermediate quantity that is handed in replaces the computed one and nothing else.',
     'inputs configurations', 'every state, chemistry and parameter set, every optional argument given or not',
     'tests compare some numbers; each formula and each wiring must be right for all inputs',
     'every formula is compared with its specification as a polynomial or function over the same quantities',
     ['transport getters'])
prop('E22', 'Rate coefficients use the temperature and units of the process they belong to',
     'The rate coefficient of every enabled reaction is the modified Arrhenius value in SI units, evaluated at the electron '
     'temperature for electron processes and at the gas temperature otherwise, with the reactions in the order of the chemistry.',
     'inputs configurations', 'every reaction, temperature and override',
     'tests check one mixture; the selection must be right for every reaction',
     'rate functions and their inputs are compared with their specification', ['rate coefficients'])
prop('E23', 'The solver integrates exactly the published equations',
     'The function given to the integrator computes, for each time and state, the same derivative as the chain of public terms '
     'evaluated from scratch, with every intermediate quantity computed from the same state and passed to every term that needs '
     'it. The returned function depends on its arguments only.',
     'inputs histories', 'every time, state and sequence of evaluations',
     'tests compare one evaluation; one wrongly wired intermediate shows only in certain states',
     'the objective function is compared with its specification, term by term', ['objective function'])
prop('E25', 'Initial densities respect pressure, neutrality and the given fractions',
     'The initial densities given to a run fill the documented share of the total density at the given pressure and temperature '
     'with feed gases in proportion to their flows, make the gas electrically neutral, and treat electrons, ions and other species '
     'by the documented fractions. User-supplied densities are used as given for the named species and invalid ones are refused.',
     'inputs configurations', 'every chemistry, parameter set and set of fractions or user densities',
     'tests check one mixture; neutrality and normalisation must hold for all',
     'the functions building and validating initial states are compared with their specification',
     ['initial densities', 'initial state vector'])
prop('R26', 'A model reports the solution it was run to and quantities derived from it',
     'Solution, rates, fluxes and diagnosed quantities are available only after the model was solved and are those of the last '
     'solution, evaluated at each time from the state of that time, one row per time and one column per species or reaction. Every '
     'run starts from equations rebuilt for the current state of the chemistry, and a run that fails raises the documented '
     'error.',
     'histories fault_sequences', 'every sequence of runs, successes, failures and reads',
     'tests run once and read; stale or mixed results need particular sequences',
     'run, solve, post-processing and every accessor are compared with their specification (stored state on all exits)',
     ['model accessors after runs'])
prop('G27', 'A global model hands out results only after a successful run',
     'A run counts as successful only if the backend finished and reports success; before any run, while a run is under way and '
     'after a run that failed or raised, every read of results raises the documented error. Reloading parameters forgets the '
     'previous run, invalid run requests are refused before anything is computed or logged, and the convergence report flags '
     'exactly the outputs still changing by more than the tolerance within the final time window.',
     'histories fault_sequences', 'every sequence of runs, reloads, failures and reads',
     'tests see one successful run; the protocol must hold on every path',
     'run, reload, success and convergence functions are compared with their specification',
     ['success flag', 'accessors', 'raised errors'])
prop('G28', 'Backends and configuration are reached through one consistent interface',
     'Whatever backend is chosen, the global model hands it the chemistry and parameters it was given and returns its results '
     'unchanged under the documented names; an unknown backend or configuration key raises the documented error. Configured '
     'directories and names are resolved as documented and defaults apply only where nothing is configured.',
     'configurations', 'every backend, configuration file and accessor',
     'tests use one backend and one configuration', 'the delegating functions and the configuration functions are compared with '
     'their specification', ['global model accessors', 'configuration values'])
prop('G29', 'Logging never destroys results it was not told to overwrite',
     'Logging a run writes the results, parameters and chemistry state of exactly that run into its own directory, in a form that '
     'can be read back, and refuses an existing directory unless overwriting was requested. Nothing outside the directory of the '
     'run is ever deleted or overwritten.',
     'histories inputs fault_sequences', 'every run name, results directory and overwrite option, in every order',
     'tests log one run; destructive paths are not exercised', 'logging functions are compared with their specification '
     '(every file operation with its guard and target)', ['files written and deleted'])
prop('N30', 'The neutral variant differs from the full model only where electrons matter',
     'The model without electrons uses the same balance, transport and initial-state rules as the full model, with electron density '
     'and electron-driven terms replaced by their documented constants and no energy equation. Everything it does not redefine '
     'behaves as in the full model, with the same accessors.',
     'inputs configurations', 'every electron-free chemistry and parameter set',
     'tests run one neutral case', 'the redefined functions are compared with their specification and with the signature of the '
     'ones they replace', ['neutral model results'])
prop('O31', 'The reduction keeps an exact ledger and never removes protected species',
     'Reduction starts from the converged full chemistry, tries species in the documented order, keeps a removal only if the '
     'reduced model succeeds within the allowed error, and restores the state of the chemistry exactly after a rejected trial. '
     'The log lists, for each step, what was removed, the error reached and the outcome, and important species are never removed.',
     'histories fault_sequences inputs', 'every ranking, error limit and pattern of failing runs',
     'tests run one reduction; rejected and failing trials in arbitrary orders are not sampled',
     'the reduction functions are compared with their specification (state, logs, restored chemistry)',
     ['removed species', 'logs', 'chemistry state'])
prop('O32', 'Solution errors compare like with like and never extrapolate',
     'The error of a reduced solution is the relative difference to the full one, for the requested output at the requested times, '
     'taken from values interpolated inside the common time range only. Times outside the range or missing outputs raise an error '
     'instead of giving a number.',
     'inputs', 'every pair of solutions, output and set of times',
     'tests compare two short solutions', 'the error functions are compared with their specification', ['error values'])
prop('O33', 'Graph weights and rankings follow the documented interaction coefficients',
     'Edge weights of the species graph are the documented interaction coefficients computed from the given rates, fluxes and '
     'stoichiometry, path searches return optimal paths for the documented criterion, and the ranking orders all candidate species '
     'by their best score. Inconsistent inputs are refused.',
     'inputs', 'every graph, chemistry, rates and target set', 'tests use small graphs; weights must be right for every network',
     'graph operations, weights, searches and ranking are compared with their specification (search optimality itself is not '
     'decided)', ['weights', 'rankings'])
prop('O34', 'A Morris study varies what it says it varies and logs it faithfully',
     'Each step of a trajectory changes exactly one factor by the documented amount, runs the model with parameters mapped from '
     'those factors, and logs factors and solution under the identifiers used to read them back. Statistics and rankings are the '
     'documented functions of the logged elementary effects.',
     'histories inputs configurations', 'every seed, trajectory type and logged study',
     'tests run one tiny study', 'mapping, logging and statistics functions are compared with their specification',
     ['trajectory logs', 'statistics'])
prop('B36', 'Stored results are read back as they were logged and attributed correctly',
     'Reading a logged run returns the frames and parameters of that run, from the named backend and directory, at the nearest '
     'logged times asked for, or raises the documented error. Production and consumption rates derived from them contain exactly '
     'the reactions and wall processes that make or lose the species, with the right sign and magnitude.',
     'inputs histories', 'every logged run, species and set of times',
     'tests read one run', 'reading and attribution functions are compared with their specification',
     ['frames', 'rate tables'])
NOT_APPLICABLE = {}
NA_PROPS = {
 'S37': dict(title='Numerical results of a run solve the balance equations to the tolerance',
   statement='The densities and energies returned by a run approximate the exact solution of the balance equations within the '
             'tolerance of the integrator, at every reported time.',
   over=['inputs'], qtext='every chemistry and parameter set', why='tests compare single runs with stored numbers', state=[],
   observe=['solution frames'], files=['pygmo_fwork/pygmol/model.py', 'pygmo_fwork/pygmol/equations.py']),
 'S38': dict(title='Path searches and maximal flow return optimal values',
   statement='The path searches and the flow computation of the species graph return optimal values for every weighted graph.',
   over=['inputs'], qtext='every weighted graph', why='tests use graphs with a handful of nodes', state=[],
   observe=['scores'], files=['pygmo_fwork/optichem/graph.py']),
}
NOT_APPLICABLE.update({
 'S37': 'accuracy of a numerical integration is a quantity over runtime values that no static argument here bounds; the '
        'equations handed to the integrator are decided by E19-E23 instead',
 'S38': 'optimality is a property of loop executions over runtime weights; no structural clause of it is checked beyond the '
        'comparison of the search functions with their specification in O33',
})
