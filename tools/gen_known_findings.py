import subprocess
L='''8715c2c C13 a set the writer rejects half-way left its first records in the file
8771028 C01 a set added to a file whose last line has no newline was glued to that line and lost
5023666 C25 refresh of an emptied or deleted file kept reporting the old sets
007ef29 C02 get_set_formats reported binary sets as ASCII
b3aff70 C02 data ending in the characters of a delimiter, CRLF and padded delimiters were taken for or missed as delimiters
da3974c C04 n_bytes of a complex or uneven binary 58 did not count all its samples
d72f774 C04 single-precision binary samples were written in double precision under a single-precision header
fdcb893 C03 a data-set 58 with a single point could not be written
5ed1498 C18 orddenom_spec_data_type had no default and could not be omitted
f7a150d C29 over-long text pushed the following fields out of their columns
62c3e35 C19 prepare_151 dates and times were replaced by the current time on writing
c9534d1 C09 record 1 of 1858 was written with widths other than those it is read with
19e1f9e C08 the beam record of some beam elements was not written, so reading them failed
e9d08e4 C08 elements with more than 8 nodes were written on one line and not read back
f951c94 C08 a set made by prepare_2412 could not be written
8c265b7 C06 real records of 2414 were written in columns that touch or differ from those read
b4aad7c C06 a 2414 of location 5 was not closed and swallowed the next set
2f180a7 C06 double-precision complex data of 2414 could not be read
92c56a6 C06 more than six values per node or element of 2414 did not come back
0d1bda3 C08 groups of 2429 were not written
39de735 C08 a last group without entities of 2429 was lost
84747fc C19 prepare_group of 2429 ignored or swapped two of its arguments
d5b9fe0 C20 prepare_2467 accepted groups of the wrong type
25bf3eb C28 reading 2467 printed debugging output
71d0f42 C18 default set numbers of 2467 groups
58f3ee2 C08 the node count of 82 was taken from the caller, not from the nodes
b09b411 C22 convert_dataset_2412_to_82 with more than one set repeated or lost lines
c40c497 C05 complex data with six components in 55
a2d0171 C11 blank-padded lines of an ASCII 58 were not read
0fb249f C11 blank-padded lines of a 55 were not read
94c66fb C11 blank-padded lines of an 18 were not read
866ea46 C02 a binary set cut short was reported as complete when its samples spell a delimiter
f69dff3 C20 prepare_55 accepted text for modal_m
035a550 C20 prepare_58 accepted text for x
62d2084 C20 prepare_2400 accepted a status_mask that does not hold integers
bc99dd0 C20 prepare_18 accepted values of the wrong type
708cf19 C19 an empty date or time given to prepare_151 was replaced by the current one
de71518 C21 fix_58b lost a last set without final newline, and damaged samples and texts that look like delimiters
2fda214 C22 convert_dataset_2412_to_82 failed on a set with an empty list of quads
851c845 C23 reading a 2429 or 2467 with a negative number of entities never ended
ff4a537 C23 a binary 58 with missing samples took the opening of the next set for its end, which was lost
513ba7e C27 a file whose position cannot be told was left open by a failing write
ba146d1 C37 a 2414 whose node or element numbers are a list, as prepare_2414 allows, could not be written
48403a4 C20 prepare_18 accepted a list of names with a number among them
175e74a C37 the increment of an even abscissa held as small or unsigned integers overflowed
40d628e C04 negative zeros in the imaginary part lost their sign, and the real part beside an infinite or NaN imaginary part became NaN, on reading
416af23 C07 values that fill their columns, and therefore touch, were read as one (15, 18, 82, 2411, 2412, 2414, 2420, 2429, 2467)
6018d4e C06 a 2414 without nodes or elements, as it is stored, could not be read
8decec3 C38 an interrupted refresh was swallowed and left sets without a type
cf44620 C05 imaginary parts of 55 were lost when only the first component was real
d3758e4 C06 a 2414 with more than three components was stored without its values
'''
out='''# known: property=<id> suite=<suite> choices=[...] <what>   an unrepaired finding, identified by the execution that shows it
# fixed: property=<id> <commit> <what failed>              a repaired one; suppresses nothing
'''
for l in L.splitlines():
    h,p,w=l.split(' ',2)
    full=subprocess.check_output(['git','-C','/repo','rev-parse',h],text=True).strip()
    out+='fixed: property=%s %s %s\n'%(p,h,w)
open('/verif/known_findings.txt','w').write(out)
