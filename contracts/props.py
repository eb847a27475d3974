"""What decides each property: units, lemmas, assumptions."""
import units

TRUSTED = [
    'the verification-condition generator /verif/engine (clang 18 AST -> obligations, exact polynomial normal forms) and its models of Eigen arrays, '
    'std::string/vector, streams and OpenMP loops (engine/libmodels.py)',
    'clang 18 front end; z3 (integer, linear and light nonlinear leaf obligations)',
]
ASSUMPTIONS = [
    'floating point is treated as exact real arithmetic (rounding, overflow to inf and NaN are outside the proofs; the replay compares to rounding)',
    'memory allocation succeeds; libm functions are the mathematical functions',
]
VALID = 'preconditions of run(): documented input consistency (array sizes match the counts, first mode (0,0) listed once, |xn| <= nfp*ntor, xm < mpol, ' \
        'grid and mode counts fit an int); what init_from_vmec/read_wout establish or reject is C11'

FILES = 'the netCDF library behaves as modelled in engine/ncmodel.py (each call succeeds or returns a non-zero code; data are delivered only on success; definitions last); ' \
        'variables of a file have the sizes its scalars and dimensions state'
OBJECT = 'preconditions of write_boozmn(): the object is the result of run() or read_boozmn() on at least one surface (consistent sizes)'

# units whose refuted obligations presuppose the contracts proved by the other units
DEPENDS = {'surface_solve': ['init', 'init_trig'], 'check_accuracy': ['init', 'init_trig', 'surface_solve'], 'run': ['init'], 'init': ['init_trig'],
           'read_wout': ['init_from_vmec', 'netcdf'], 'read_boozmn': ['netcdf'], 'write_boozmn': ['netcdf']}

PROPS = {
    'C01': dict(assumptions=[VALID]),
    'C02': dict(assumptions=[VALID]),
    'C03': dict(assumptions=[VALID]),
    'C04': dict(assumptions=[VALID, 'asymmetric amplitudes of the input are zero'], derived=['C01', 'C02', 'C03'], lemmas=['half_grid'], trusted=['Lean 4 kernel and Mathlib (lean/Quadrature.lean)']),
    'C05': dict(assumptions=[VALID, 'hypotheses of the property: lambda = 0, w = 0, every input mode in the output list'], derived=['C01', 'C03'], lemmas=['identity'],
                trusted=['Lean 4 kernel and Mathlib (lean/Quadrature.lean)']),
    'C06': dict(assumptions=[VALID, 'OpenMP executes the iterations of a race-free parallel for in some interleaving with the effect of any order (OpenMP memory model)']),
    'C07': dict(assumptions=[VALID]),
    'C08': dict(assumptions=[VALID]),
    'C09': dict(assumptions=[VALID, 'number formatting by iostream (setprecision, setw) is not modelled; the replay reads the printed table']),
    'C10': dict(assumptions=['on the axis the amplitudes of odd m > 1 vanish (regularity of VMEC data), as the code notes']),
    'C11': dict(assumptions=[]),
    'C12': dict(assumptions=[FILES]),
    'C13': dict(assumptions=[VALID, FILES]),
    'C14': dict(assumptions=[FILES, OBJECT]),
    'C15': dict(assumptions=[FILES, OBJECT]),
    'C16': dict(assumptions=[FILES, OBJECT]),
    'C17': dict(assumptions=[FILES, 'std::ifstream extraction is modelled by uninterpreted results per position (engine/iomodel.py); at most 2^24 numbers in the file',
                             'read_wout, run and write_boozmn are used through their contracts (C01-C16)']),
    'C18': dict(assumptions=['floating point, netCDF and the transformation itself are outside: the Booz_xform object is the extension class, used through C19',
                             'Python semantics of the subset interpreted by engine/pysym.py (str.split, int(), open/read, list operations) are as modelled there'],
                trusted=['the symbolic executor for Python engine/pysym.py'], build=False),
    'C19': dict(assumptions=['the extension module that Python loads is the one compiled from bindings.cpp'], trusted=['pybind11'], build=False),
    'C20': dict(assumptions=['matplotlib and plotly draw the arrays they are given; numpy functions (linspace, meshgrid, cos, sin, where, max, abs) are as modelled in engine/pysym.py',
                             'a result of run() or read_boozmn(): mode lists and spectra of consistent sizes, (0,0) listed first',
                             'wording of titles and labels and the choice of colours are not part of the property'],
                trusted=['the symbolic executor for Python engine/pysym.py'], build=False),
    'C21': dict(assumptions=['tables start as zero in the sine column 0 (precondition, discharged at every call)']),
}


def units_of(prop):
    units.ensure()
    d = PROPS[prop].get('derived', [])
    out = []
    for n, u in units.REG.items():
        if prop in u['props'] or (prop == 'C13' and not set(u['props']) <= {'C18', 'C19', 'C20'}) or any(x in u['props'] for x in d):
            out.append(n)
    return out

NOTES = {
    'C01': 'Postconditions of init_trig, init, surface_solve and run, composed by contract, state the five (ten) spectra as the theory quadrature for all sizes and inputs.',
    'C02': 'Postconditions of init and run for Boozer_I/G(_all), for all inputs and surface lists.',
    'C03': 'Postcondition of init: closed form of every mode-list entry and of the list length for all mboz, nboz, nfp.',
    'C04': 'Lemma over the contracts of init, surface_solve and run: with zero asymmetric amplitudes the asymmetric quadrature equals the symmetric one (symmetry and periodicity of the integrand discharged here; summation over the grid by Lean, all sizes).',
    'C05': 'Lemma over the contracts of init and surface_solve: in Boozer angles the quadrature is the discrete inner product of the input series with the output mode (discharged here); discrete orthogonality for all sizes by Lean.',
    'C06': 'Frame obligations: each surface writes only its own column/slot, reads nothing another writes, no static state; run applies the contract per surface.',
    'C07': 'Every output is proved equal to an expression over inputs only, from an arbitrary initial object state; documented sizes are postconditions.',
    'C08': 'verbose is a free symbol in every unit: the outputs and inputs left behind are proved not to depend on it; replays compare verbosity levels.',
    'C09': 'The values passed to the print statements of check_accuracy are proved to be the stated sums, angles and relative difference.',
    'C10': 'Postconditions of init_from_vmec for arbitrary sizes and data, from an arbitrary earlier object state.',
    'C11': 'The throwing paths are enumerated and proved equivalent to the documented consistency conditions.',
    'C12': 'Postcondition of read_wout over the ghost netCDF file: every value handed to init_from_vmec and every field is the variable of the same meaning, and no other variable is needed.',
    'C14': 'Postcondition of write_boozmn over the ghost netCDF file: dimensions, types, shapes and every element of every documented variable, evaluated when the data are handed over.',
    'C15': 'write_boozmn composed with read_boozmn through the ghost file into an arbitrary old object: every listed field equals the original.',
    'C16': 'Every library call returns an unconstrained code; a normal return is proved to imply that all of them succeeded; mode and close typestate of the file are obligations.',
    'C17': 'driver and main: every end of the program is classified by what the input file holds; the object handed to run() and write_boozmn() is compared field by field with what the file asks for, for any number of listed surfaces.',
    'C18': 'parse_input_file, run_driver and main executed symbolically from the Python source: every end of the program and every call on the object is compared with the input-file format, for token sequences of any length.',
    'C19': 'The module initialisation is interpreted from its clang AST: one binding per documented name, to the member of the same name, with the documented keywords, order and defaults.',
    'C20': 'surfplot, modeplot, symplot, wireplot executed symbolically from the Python source: the arrays handed to matplotlib/plotly equal the series, for any number of modes, surfaces and grid points.',
    'C13': 'Every array access, read of a fresh array, integer division and int operation of the functions under contract is an obligation.',
    'C21': 'Postcondition of init_trig by induction over the recurrences.',
}
NOT_APPLICABLE = {}
