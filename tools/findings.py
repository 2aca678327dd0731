import subprocess
m={1:"C01",2:"C29",3:"C23",4:"C07",5:"C06",6:"C06",7:"C05",8:"C09",9:"C09",10:"C09",11:"C09",12:"C05",13:"C05",14:"C07",15:"C10",16:"C10",17:"C11",18:"C01",19:"C13",20:"C13",21:"C21",22:"C21",23:"C12",24:"C12",25:"C13",26:"C13",27:"C15",28:"C16",29:"C16",30:"C16",31:"C04",32:"C19",33:"C20",34:"C20",35:"C21",36:"C21",37:"C22",38:"C22",39:"C22",40:"C23",41:"C23",42:"C23",43:"C24",44:"C24",45:"C25",46:"C25",47:"C25",48:"C25",49:"C26",50:"C27",51:"C27",52:"C27",53:"C27",54:"C27",55:"C27",56:"C27",57:"C27",58:"C28",59:"C28",60:"C28",61:"C28",62:"C29",63:"C30",64:"C30",65:"C30",66:"C31",67:"C31",68:"C31",69:"C31",70:"C31",71:"C31",72:"C31",73:"C31",74:"C31",75:"C31",76:"C01"}
what={1:"every floating-point result failed: numpy.float no longer exists",2:"user modules could not be loaded: imp/SourceFileLoader use",3:"climIO could not be imported: numpy.long no longer exists",
4:"unit conversion dropped the direction of the data",5:"integer data converted to other units was truncated to integers",6:"converting a single time between reference dates failed",7:"adding an up to a down array flipped the second operand in place",
8:"mean over several dimensions used wrong axes after the first",9:"array method sum over named dimensions returned a mean",10:"sum(x, d1, d2) summed over the first dimension only",11:"min and max over dimensions reduced other dimensions and lost units",
12:"up(x) and down(x) negated the input array in place",13:"limit(x, ...) overwrote its input array",14:"minus a missing scalar lost units and direction",15:"joined subsets with negative indices or empty slices selected other elements",16:"selecting one element lost units and direction",
17:"definitions ending too early raised AttributeError rather than a parsing error",18:"limit with fractional bounds on integer data truncated them",19:"valid_min or valid_max of zero ignored, data equal to a bound masked",20:"ok_min_mean_abs or ok_max_mean_abs of zero ignored",21:"chunking over the string length wrote garbage",22:"text of one character lost its string length dimension",
23:"subset of a mapped node looked up dimensions by their old names",24:"limit of a single value failed",25:"validating text or missing scalars failed",26:"selecting a missing element changed the type",27:"variables with the same dimensions in another order taken as the same",28:"a specification without defined variables failed",29:"bounds of coordinate variables left out of files",30:"every file was dropped because of one undefined variable",
31:"a failing write left an open incomplete file behind",32:"chunk sizes of zero or below accepted",33:"two input dimensions mapped to one output dimension",34:"data of size one written into a larger dimension",35:"the string length of text was transposed to another position",36:"text with _Encoding read without its string length",37:"values cast to integers before unit conversion",38:"times with missing points could not be converted",39:"big-endian input variables rejected",
40:"input files left open and dates of one file applied to others",41:"all but one file with the same dates dropped",42:"gaps found by raw numbers rather than dates",43:"default grid of derivatives taken along the first axis",44:"splines of integer data truncated",45:"meridional shear without the factor of the sphere",46:"advective tendencies in wrong units",47:"missing values used as data in DynVarMIP diagnostics",48:"DynVarMIP diagnostics differ when evaluated in pieces",49:"bounds differ by piece, fail for integer and reversed coordinates",
50:"partial years, months and rows averaged as whole ones",51:"missing points used as data",52:"announced dimensions and units other than those returned",53:"January of later years of wrong length",54:"time-dependent condition failed",55:"bounds dimension named otherwise than asked",56:"pressures in wrong units or at wrong levels",57:"results differ when evaluated in pieces",58:"wrong dimensions and units announced",59:"missing or weightless subgrid units averaged as data",60:"second vegetated unit of a cell ignored",61:"averages differ when evaluated in pieces",62:"parallel runs of xconform deadlocked",63:"text after an equals sign in a definition lost",64:"KeyError for variables with frequency but no realm",65:"definitions needing nothing, or malformed, stopped the tool",
66:"KeyError for every variable with dimensions (bytes names)",67:"variables of the first table looked up in all tables",68:"own frequency of a variable replaced, scalar variables given a nameless dimension",69:"text attribute file discarded those before it",70:"UnboundLocalError or KeyError without grids, external_variables, activity_id, variable_id; TypeError for numbers",71:"1.825D3 read as 1.825; blank branch times failed",72:"compression written under a name the converter ignores",73:"KeyError for an axis with a blank type",74:"landIce axes defined by the land section",75:"real variables rejected in classic formats that the generator offers",76:"chunits of a plain number raised AttributeError"}
m.update({77:"C01",78:"C01"})
what.update({77:"indices of data given in the specification ignored",78:"sqrt of a plain number times or over an array: wrong units, lost type"})
m.update({79:"C32",80:"C32",81:"C32",82:"C32"})
what.update({79:"attributes of copied variables lost or written as Python attributes",80:"compression level asked for ignored, kept from file to file, or a TypeError",81:"doubles written in single precision, 64-bit integers for others",82:"template files left open"})
m.update({83:"C01",84:"C07"})
what.update({83:"integers of 8, 16 and 32 bits overflowed in products and sums, sqrt of bytes failed",84:"unsigned integers wrapped when negated or subtracted, and could not be turned over"})
m.update({85:"C33"})
what.update({85:"points below the surface became data after a conversion of units or with another fill value"})
m.update({i:"C27" for i in range(86,93)})
what.update({86:"differences with missing values written as data in diff_axis1_ind0bczero_4d",87:"differences with missing values written as data in rsdoabsorb",88:"fill values under the mask averaged in POP_surf_mean",89:"fill values under the mask averaged in POP_3D_mean",90:"fill values under the mask summed in POP_layer_sum_mult",91:"missing crop fraction taken as land full of crops in get_nonwoodyveg",92:"months of time steps counted from the end wrong in burntFraction"})
m.update({93:'C27',94:'C27'})
what.update({93:'points without KMT taken as the whole column, KMT of type float not usable as an index',94:'age of air made up where the tracer is missing'})
m.update({95:'C07',96:'C13'})
what.update({95:'data negated where the declared direction is blank or in capitals',96:'limits given as text, as in the MIP tables, raised UFuncTypeError'})
m.update({97:'C02',98:'C22',99:'C09',100:'C26'})
what.update({97:'a dimension without elements stopped the writing or, in pieces, left all variables of the file unwritten',98:'time units with a capital Since could not be read or declared',99:'max over no dimensions raised IndexError',100:'interface values in other units than the coordinate taken as they are'})
m.update({101:'C31',102:'C31'})
what.update({101:'blank attributes whose name contains another name (sub_experiment, experiment_id, parent_activity_id) overwrote experiment or activity_id, or raised RuntimeError',102:'text attribute files in a folder named after json read as JSON'})
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()[1:]
out=open('/verif/known_findings.txt').read().split('\nfixed:')[0].rstrip('\n')+'\n'
for i,l in enumerate(log,1):
    h=l.split()[0]
    assert l.split()[1]=='fix:',l
    out+="fixed: property=%s %s %s\n"%(m[i],h,what[i])
open('/verif/known_findings.txt','w').write(out)
