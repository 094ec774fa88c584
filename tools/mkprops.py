"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), ):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
B='sympl/_core/base_components.py'; TS='sympl/_components/timesteppers.py'; TST='sympl/_core/tendencystepper.py'
p('C01','Components compute on exactly the inputs they declare',
 "Whenever a component (TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent or Stepper) is called with a valid state, the arrays its array-level computation receives are exactly its declared inputs, each under its alias (or its name), plus 'time' and, for tracer components, 'tracers'. Each array is the state's quantity converted to the declared units and laid out with its dimensions in the declared order; the dimensions matched by a '*' are flattened into one axis, in one order common to all inputs of that call, and a declared (or '*'-matched) dimension which the quantity lacks is filled by repeating the data, to that dimension's length in the other inputs or to length 1 if no input has it. No other numerical change is made.",
 ['inputs','configurations'],'every component declaration (names, aliases, units, dims, wildcards), every state valid for it, of any rank, dimension order and convertible units',
 'tests sample a handful of 1-3 dimensional arrays with fixed names; the guarantee quantifies over all declarations, permutations, wildcard matches and unit pairs',
 ['sympl/_core/get_np_arrays.py','sympl/_core/wildcard.py','sympl/_core/backend.py','sympl/_core/dataarray.py','sympl/_core/units.py',B],
 [('get_numpy_arrays_with_properties','sympl/_core/get_np_arrays.py'),('get_wildcard_matches_and_dim_lengths, flatten_wildcard_dims','sympl/_core/wildcard.py'),('DataArrayBackend.get_array','sympl/_core/backend.py')],
 observe=['argument of array_call'])
p('C02','Component outputs carry the declared names, units, dims and the raw values',
 "Every quantity a component call returns is stored under its declared name (not its alias), has exactly the declared units, and has the declared dimensions (those of the input of the same name when none are declared) in the declared order with '*' expanded back to the dimensions it matched on input. Its values are exactly the array the component computed, only reshaped; each declared output is returned, and nothing else.",
 ['inputs','configurations'],'every declaration and every set of raw output arrays consistent with it',
 'tests sample a few shapes; the mapping name/alias/dims/wildcard must be right for every declaration and shape',
 ['sympl/_core/restore_dataarray.py','sympl/_core/wildcard.py','sympl/_core/backend.py',B],
 [('restore_data_arrays_with_properties','sympl/_core/restore_dataarray.py'),('extract_output_dims_properties, get_alias_or_name','sympl/_core/restore_dataarray.py'),('fill_dims_wildcard, expand_array_wildcard_dims','sympl/_core/wildcard.py')],
 observe=['return values of component calls'])
p('C03','Invalid states and wrong outputs are rejected, valid ones are not',
 "A component call raises InvalidStateError, before its array-level computation runs, when a declared input is missing from the state, has no units, has units that cannot be converted to the declared ones, has a dimension that is neither declared nor matched by '*', or when two inputs disagree on the length of a dimension. It raises ComponentMissingOutputError when the computation leaves out a declared output, ComponentExtraOutputError when it returns one that is not declared (an alias of a declared output counts as declared), and InvalidPropertyDictError when a returned array does not fit its declared dimensions. A call with none of these faults is never rejected (unless a dimension is both named by an input having '*' and matched by the '*' of another, so that no layout exists).",
 ['inputs','configurations'],'every component declaration, every state and every returned dictionary, faulty or not',
 'tests exercise one or two faulty dictionaries per class; the rejection must fire for every fault in any of the entries and never on a valid call',
 [B,'sympl/_core/wildcard.py','sympl/_core/backend.py','sympl/_core/restore_dataarray.py'],
 [('InputChecker.check_inputs, TendencyChecker.check_tendencies, DiagnosticChecker.check_diagnostics, OutputChecker.check_outputs',B),('get_wildcard_matches_and_dim_lengths','sympl/_core/wildcard.py'),('check_array_shape','sympl/_core/restore_dataarray.py')],
 observe=['exception raised by a component call'])
p('C04','Inconsistent component declarations are refused at construction',
 "Constructing a component raises InvalidPropertyDictError when any entry of its input, tendency, diagnostic or output properties lacks units, lacks dims (for outputs: when the input of the same name does not supply them), shares an alias with another entry of the same dictionary, or has units incompatible with the input of the same name (for tendencies: with those units per second). A declaration with none of these faults is accepted.",
 ['inputs','configurations'],'every set of property dictionaries, with the fault in any entry',
 'tests check single-entry dictionaries; the check must find a fault in any entry of any dictionary',
 [B],[('InputChecker.__init__, TendencyChecker.__init__, DiagnosticChecker.__init__, OutputChecker.__init__',B),('check_overlapping_aliases, get_name_with_incompatible_units, get_tendency_name_with_incompatible_units',B)],
 observe=['exception raised by a component constructor'])
p('C05','Calls leave the caller\'s state and component-owned data unchanged',
 "Calling a component, composite, wrapper, AdamsBashforth or SSPRungeKutta stepper, or a monitor with a state never adds, removes or rebinds an entry of that state dictionary and never changes the values, dimensions or attributes of a quantity in it (only Leapfrog, as documented, filters the current state in place). Nor does a call change arrays or dictionaries owned by the components it calls or returned by earlier calls, so repeating a call of a deterministic component, composite or wrapper with an equal state gives equal results.",
 ['inputs','histories'],'every state, every combination of components, composites and wrappers, every number of repeated calls',
 'tests call each object once or twice with one quantity; accumulated in-place damage needs shared arrays and repeated calls',
 ['sympl/_core/util.py','sympl/_core/composite.py','sympl/_core/wrappers.py','sympl/_core/state.py','sympl/_core/units.py','sympl/_core/dataarray.py',TS,TST,'sympl/_components/basic.py'],
 [('update_dict_by_adding_another copies before adding in place','sympl/_core/util.py'),('state.copy() before stepping',TS),('data_array_to_units builds a new array','sympl/_core/units.py')],
 observe=['the state dictionary and quantities after a call','results of repeated calls'])
p('C06','Composites add tendencies with units and merge diagnostics',
 "A TendencyComponentComposite or ImplicitTendencyComponentComposite calls each of its components exactly once with the given state (and the timestep exactly when the component takes one). For each quantity it returns the sum of the tendencies given for it, each converted to the units of the first component that gives one (the result's units), including when components give different sets of dimensions; its diagnostics are the union of its components' diagnostics. A DiagnosticComponentComposite likewise returns the union of its components' diagnostics, unchanged.",
 ['inputs','configurations'],'any number and order of components, any overlap between the quantities they provide, any compatible units',
 'tests use two or three components and one shared quantity with the same units',
 ['sympl/_core/composite.py','sympl/_core/util.py'],
 [('TendencyComponentComposite.__call__, ImplicitTendencyComponentComposite.__call__, DiagnosticComponentComposite.__call__','sympl/_core/composite.py'),('update_dict_by_adding_another','sympl/_core/util.py')],
 observe=['return values of composite calls'])
p('C07','Two components may not compute the same diagnostic in a composite',
 "Building a composite from components of which two declare the same diagnostic raises SharedKeyError, whichever components they are and whatever else they declare. A DiagnosticComponentComposite call also raises SharedKeyError rather than letting one component's result overwrite another's, and a composite given a component of the wrong kind raises TypeError.",
 ['inputs','configurations'],'any number and order of components',
 'tests use two adjacent components with one diagnostic each',
 ['sympl/_core/composite.py','sympl/_core/util.py'],
 [('ensure_no_shared_keys','sympl/_core/util.py'),('DiagnosticPropertiesCompositeMixin.diagnostic_properties','sympl/_core/composite.py'),('ensure_components_have_class','sympl/_core/composite.py')],
 observe=['exception raised by a composite constructor or call'])
p('C08','Combined properties satisfy every component or are refused',
 "The property dictionary combined from several components names exactly the quantities any of them names (tracers included for components using tracers); for each, its units are convertible to every component's units for it, and its dims are a specification satisfying each component's: the same set of dimensions, where a '*' in a component's dims stands for any further dimensions. InvalidPropertyDictError is raised when and only when no such specification exists, and the outcome does not depend on the order in which the components are given.",
 ['inputs','configurations'],'any number and order of property dictionaries, any dims with and without wildcards, any units',
 'tests cover about ten pairs of dims, mostly symmetric, with the wildcard on the left',
 ['sympl/_core/combine_properties.py','sympl/_core/tracers.py'],
 [('combine_dims, combine_properties, combine_component_properties','sympl/_core/combine_properties.py'),('get_tracer_input_properties','sympl/_core/tracers.py')],
 observe=['combine_component_properties','input_properties / tendency_properties of composites and TendencySteppers'])
p('C09','Adams-Bashforth steps follow the scheme for every history',
 "For order k (1 to 4), on the n-th successful call an AdamsBashforth stepper returns, for every quantity with a tendency, state + dt * (sum of the Adams-Bashforth coefficients of order min(k, n) times the tendencies computed by its last min(k, n) calls, newest first), with tendencies converted to the units of the state per second. A call with a timestep different from the first one raises ValueError and leaves the stepper's later results unaffected.",
 ['histories','inputs'],'every number of calls, every sequence of states and tendencies, every order, units and timestep',
 'tests run at most a few steps with constant tendencies, for which most wrong coefficient orders give the same answer',
 [TS,TST],[('AdamsBashforth._call, _perform_step, _ensure_constant_timestep',TS),('step_forward_euler, second_bashforth, third_bashforth, fourth_bashforth',TS),('convert_tendencies_units_for_state',TS)],
 state=[('_tendencies_list','tendencies of the last order-1 steps, oldest first',TS),('_timestep','timestep of the first call',TS)],
 observe=['new_state returned by successive calls'])
p('C10','Leapfrog steps follow the filtered leapfrog scheme for every history',
 "A Leapfrog stepper's first call is a forward Euler step; every later call returns old + 2*dt*tendency - (1-alpha)*d and replaces the current values in the given state by current + alpha*d, where old is the (filtered) state of the previous call, d = (asselin_strength/2)*(old - 2*current + old + 2*dt*tendency), and tendencies are in the units of the state per second. Quantities without a tendency are not filtered, and a call with a timestep different from the first one raises ValueError.",
 ['histories','inputs'],'every number of calls, every sequence of states and tendencies, every filter strength and alpha',
 'tests run two or three steps with one parameter set',
 [TS,TST],[('Leapfrog._call, step_leapfrog, step_forward_euler',TS)],
 state=[('_old_state','filtered state of the previous call',TS),('_timestep','timestep of the first call',TS)],
 observe=['new_state and the filtered state after successive calls'])
p('C11','SSPRungeKutta steps follow the two- and three-stage SSP schemes',
 "With E(s) the forward Euler step of state s over the timestep (tendencies evaluated at s), a two-stage SSPRungeKutta call returns (s + E(E(s)))/2 and a three-stage call returns s/3 + (2/3)*E(3s/4 + E(E(s))/4) for every quantity with a tendency. The diagnostics returned are those computed from the input state, and the result depends on nothing but the state and the timestep, however often the stepper was used before.",
 ['histories','inputs'],'every state, tendency function, stage count, timestep and number of earlier calls',
 'tests use constant or single-step tendencies for which different stage weights agree',
 [TS,'sympl/_core/state.py'],[('SSPRungeKutta._step_2_stages, _step_3_stages',TS),('add, multiply','sympl/_core/state.py')],
 observe=['new_state and diagnostics returned by a call'])
p('C12','Steppers return a complete state with everything else passed through',
 "The new state returned by a TendencyStepper (AdamsBashforth, Leapfrog, SSPRungeKutta) has exactly the keys of the given state, 'time' among them unchanged; a quantity for which no component gives a tendency is passed through unchanged, with the same values, type, dimensions and attributes, and a stepped quantity keeps its units and dimensions.",
 ['inputs','histories'],'every state (integer, boolean and float quantities), every set of components, every scheme and number of calls',
 'tests step states whose quantities nearly all have tendencies and are floats',
 [TST,TS,'sympl/_core/state.py'],[('TendencyStepper.__call__',TST),('copy_untouched_quantities, add, multiply','sympl/_core/state.py')],
 observe=['new_state'])
p('C13','Requested tendencies appear in diagnostics with the right value and units',
 "With tendencies_in_diagnostics=True, the diagnostics of a call contain, for every quantity X the component or stepper declares a tendency or new value for, X_tendency_from_<name>: the tendency itself for tendency components, and (new value - old value) per second of timestep, in the declared units per second, for Steppers and TendencySteppers. Otherwise none is added, and asking for it on one component changes nothing for any other component, including others of the same class (unless both were explicitly given the very same dictionary object as instance attribute).",
 ['inputs','configurations','histories'],'every component kind, declaration (aliases, inherited dims), timestep, name and order of creating components',
 'tests check one quantity, no alias, one instance per class',
 [B,TST],[('_insert_tendency_properties, _insert_tendencies_to_diagnostics',B),('TendencyStepper._insert_tendencies_to_diagnostics',TST)],
 observe=['diagnostics returned by calls','diagnostic_properties of other instances'])
p('C14','ScalingWrapper scales exactly what was asked, exactly once per call',
 "The wrapped component is called with the given state's inputs, those with an input scale factor multiplied by it (attributes kept), and its tendencies, outputs and diagnostics are returned with those having a scale factor multiplied by it and all others unchanged. This holds for every call, independent of how often the wrapper or the component was called before; scale factors for unknown quantities or for a kind of output the component lacks are refused at construction.",
 ['inputs','configurations','histories'],'every component kind, every set of factors, every number of calls',
 'tests call each wrapper once with one factor; components returning the same arrays each call are not wrapped',
 ['sympl/_core/wrappers.py'],[('ScalingWrapper.__init__, ScalingWrapper.__call__','sympl/_core/wrappers.py')],
 observe=['state seen by the wrapped component','return values'])
p('C15','UpdateFrequencyWrapper recomputes exactly when the interval has elapsed',
 "The first call computes; a later call computes anew if and only if the state's time is at least the update interval after the time of the last computation, and otherwise returns the output of the last computation. A computation is given the state, the timestep (when the component accepts one) and keyword arguments of that call, and a computation that raises does not count as one.",
 ['histories','inputs'],'every sequence of times (including equal, fractional and decreasing ones), intervals and failures',
 'tests use two or three calls at round times',
 ['sympl/_core/wrappers.py'],[('UpdateFrequencyWrapper.__call__','sympl/_core/wrappers.py')],
 state=[('_last_update_time','time of the state of the last computation','sympl/_core/wrappers.py'),('_cached_output','its output','sympl/_core/wrappers.py')],
 observe=['return values and calls of the wrapped component'])
p('C16','TimeDifferencingWrapper turns a Stepper into its first-order tendency',
 "For every quantity in the wrapped Stepper's output_properties, the wrapper returns (new value - value in the given state) / timestep in seconds, after converting both to common units, expressed in the declared output units per second; the Stepper's diagnostics are returned unchanged. An output missing from the given state raises an error rather than being dropped.",
 ['inputs','configurations'],'every stepper, state units, timestep length (sub-second and multi-day included)',
 'tests use one quantity and timesteps of one or ten seconds',
 ['sympl/_components/basic.py'],[('TimeDifferencingWrapper.__call__','sympl/_components/basic.py')],
 observe=['tendencies and diagnostics returned'])
p('C17','Tracers are packed and unpacked without mixing or loss',
 "A component with uses_tracers receives one 'tracers' array whose 'tracer' axis (at its place in tracer_dims) holds its prepended tracers in the given order followed by the other registered tracers in registration order, each converted to its registered units and laid out in the remaining tracer_dims. The slice it returns for each tracer comes back under that tracer's name with that tracer's units (per second for tendencies) and dims, so that unpacking what was packed returns the original quantities.",
 ['inputs','configurations','histories'],'any number of prepended and registered tracers, any axis position, any registration history',
 'tests use one or two tracers with the tracer axis first',
 ['sympl/_core/tracers.py',B],[('TracerPacker.pack, TracerPacker.unpack, TracerPacker.tracer_names','sympl/_core/tracers.py'),('get_tracer_input_properties','sympl/_core/tracers.py')],
 observe=["'tracers' array given to array_call",'tracer quantities returned by the component call'])
p('C18','The tracer registry is ordered, unambiguous and conflict-free',
 "After any sequence of registrations, get_tracer_names gives each registered tracer once, in order of first registration, and get_tracer_unit_dict gives exactly these names with units equal to those registered; registering a name again with different units raises ValueError and changes nothing. No tracer can be registered, nor a tracer component created, when a tracer component has (or would have) that tracer as one of its own outputs or tendencies: InvalidPropertyDictError is raised.",
 ['histories'],'every sequence of registrations, repeated names and component creations',
 'tests register one or two distinct tracers',
 ['sympl/_core/tracers.py'],[('register_tracer, get_tracer_names, get_tracer_unit_dict','sympl/_core/tracers.py'),('TracerPacker.__init__, TracerPacker.ensure_tracer_not_in_outputs','sympl/_core/tracers.py')],
 state=[('_tracer_names','registered names in order','sympl/_core/tracers.py'),('_tracer_unit_dict','units by name','sympl/_core/tracers.py'),('_packers','live tracer components','sympl/_core/tracers.py')],
 observe=['get_tracer_names','get_tracer_unit_dict','exceptions'])
p('C19','Unit conversion preserves the physical quantity and the source',
 "DataArray.to_units returns data equal to the source times the conversion factor (and offset) between the two units, with the requested units recorded (the source's own spelling when they are the same unit), all other attributes and the dimensions kept, and leaves the source unchanged; converting there and back gives the original values, and inconvertible units raise ValueError, missing units KeyError. units_are_same and units_are_compatible are symmetric, agree with whether such a conversion is the identity or exists, and accept the same spellings ('%', degree sign) on either side.",
 ['inputs'],'every pair of unit strings, every array',
 'tests check about five unit strings',
 ['sympl/_core/units.py','sympl/_core/dataarray.py'],[('data_array_to_units, units_are_same, units_are_compatible, is_valid_unit, from_unit_to_another, UnitRegistry.__call__','sympl/_core/units.py'),('DataArray.to_units','sympl/_core/dataarray.py')],
 observe=['return values and exceptions'])
p('C20','Constants read back as set, through every alias, until reset',
 "After any sequence of set_constant, set_condensible_name and reset_constants calls, get_constant(name, units) returns the value last set for the constant that name (or its chain of aliases, such as *_of_ice or *_phase for the current condensible) denotes, converted to the requested units; setting one constant changes no other, and an invalid unit is refused with ValueError without changing anything. reset_constants restores every value, alias and the condensible to those at import and removes added constants.",
 ['histories','inputs'],'every sequence of set, condensible and reset calls, every name and alias',
 'tests set two or three constants once',
 ['sympl/_core/constants.py'],[('get_constant, set_constant, set_condensible_name, reset_constants, get_alias, get_condensible_map','sympl/_core/constants.py'),('ConstantDict','sympl/_core/constants.py')],
 state=[('constants','current values','sympl/_core/constants.py'),('constant_aliases','alias to name','sympl/_core/constants.py')],
 observe=['get_constant'])
p('C21','NetCDFMonitor writes every stored state once, in order, unaltered',
 "After any sequence of store() and write() calls, the file holds for each stored time, in time order within each write and appended after earlier writes, exactly the selected quantities (store_names, renamed through aliases; later stores at the same time merged in), with the values, dimensions and units they had when stored. Quantities that differ from those already stored or written, in name, dimensions or units, are refused with an error rather than written wrongly.",
 ['histories','inputs'],'every sequence of stores and writes, times in any order, any store_names, aliases, ranks and dtypes',
 'tests store two states in time order and write once or twice',
 ['sympl/_components/netcdf.py'],[('NetCDFMonitor.store, NetCDFMonitor.write','sympl/_components/netcdf.py'),('combine_states, append_times_to_dataset, ensure_variable_exists','sympl/_components/netcdf.py')],
 state=[('_cached_state_dict','states stored but not yet written, by time','sympl/_components/netcdf.py')],
 observe=['the NetCDF file'])
p('C22','A restart file survives a crash at any point and loads back what was stored',
 "While RestartMonitor.store runs, and after it fails or the process dies at any point, a complete restart file (the previous one or the new one) exists under the restart name, or under it with '.old' or '.new' appended; the previous file is never removed, moved or overwritten before the new one is completely written. After a successful store the restart name holds the new state only, with no '.new' or '.old' left, and load() returns its quantities (values, dimensions, attributes) and time (a datetime or timedelta).",
 ['crash_points','histories','inputs'],'a crash or failure at every file operation of every store in any sequence of stores, every state',
 'tests store and load once without failure',
 ['sympl/_components/netcdf.py'],[('RestartMonitor.store, RestartMonitor.load','sympl/_components/netcdf.py')],
 observe=['the directory at each file operation','return value of load'])
p('C23','get_numpy_array and restore_dimensions are exact inverses',
 "get_numpy_array(data, out_dims) returns the values of data with axes in the order of out_dims, '*' collecting all unnamed dimensions in the order they appear in data, and raises when data has a dimension out_dims does not provide for or lacks a named one (a lacking 'x', 'y' or 'z' is instead given length 1). restore_dimensions applied to that array, the same dims and the original as reference returns a quantity equal to the original in values, dimension order and coordinates along its dimensions, and raises when the array's size does not match.",
 ['inputs'],'every rank, dimension order, wildcard position and length (zero and one included)',
 'tests cover ranks up to three in a few orders',
 ['sympl/_core/util.py'],[('get_numpy_array, restore_dimensions','sympl/_core/util.py'),('get_input_array_dim_names, get_target_dimension_order, get_slices_and_placeholder_nones, get_final_shape','sympl/_core/util.py')],
 observe=['return values'])
p('C24','Initialised output arrays have the shapes the declaration implies',
 "initialize_numpy_arrays_with_properties returns one zero array per declared output, keyed by name, with the declared dtype (64-bit float by default) and, for each of its dims (those of the input of the same name when none are declared), the length that dimension has in the raw input arrays; with tracer_dims given, tracer outputs are replaced by one 'tracers' array whose 'tracer' length is the number of distinct tracers. Inputs that disagree on a dimension's length raise InvalidStateError.",
 ['inputs','configurations'],'every declaration, shape, alias and set of tracers',
 'tests use two or three quantities',
 ['sympl/_core/init_np_arrays.py','sympl/_core/restore_dataarray.py'],[('initialize_numpy_arrays_with_properties, get_dim_lengths_from_raw_input','sympl/_core/init_np_arrays.py'),('extract_output_dims_properties','sympl/_core/restore_dataarray.py')],
 observe=['return value'])
p('C25','Monitors see every state, in order, and cannot disturb the model',
 "MonitorComposite.store passes the given state to each of its monitors exactly once, in order. PlotFunctionMonitor gives its plot function a deep copy of the state, so that nothing the plot function does to it changes the model's state.",
 ['inputs','configurations'],'any number of monitors, any state, any plot function',
 'tests use one or two mock monitors and a plot function that does nothing',
 ['sympl/_core/composite.py','sympl/_components/plot.py'],[('MonitorComposite.store','sympl/_core/composite.py'),('PlotFunctionMonitor.store, copy_state','sympl/_components/plot.py')],
 observe=['calls of store','the state after store'])
p('C26','datetime gives the requested instant in the requested calendar, or raises',
 "sympl.datetime(year, ..., microsecond, tzinfo, calendar) returns an object with exactly these fields in exactly the named calendar (case-insensitive, all documented names), a standard datetime for 'proleptic_gregorian'. A time zone with another calendar, or a calendar that is not supported, raises an error; None is never returned.",
 ['inputs'],'every combination of fields, calendar names and tzinfo',
 'tests construct one date per calendar',
 ['sympl/_core/time.py'],[('datetime','sympl/_core/time.py')],observe=['return value'])
p('C27','Constant and relaxation components return what they were configured with',
 "A ConstantTendencyComponent or ConstantDiagnosticComponent returns, on every call and for any state, the quantities given at construction with their values, dims and units. A RelaxationTendencyComponent returns (equilibrium - value) / timescale for every element, with value and equilibrium converted to its units and the timescale to seconds, in its units per second and with the dimensions of its inputs.",
 ['inputs','histories'],'every set of constants, every state, units and number of calls',
 'tests call once with one quantity in the component units',
 ['sympl/_components/basic.py'],[('ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent','sympl/_components/basic.py')],
 observe=['return values'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
