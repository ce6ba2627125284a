# Generates the identifier table of the reference model: START/CONT for characters already in Unicode 8.0,
# NEW for characters that later versions added or have not assigned (the model answers "may" there),
# NONE for assigned characters that are not identifier characters.
use strict; use warnings; no warnings 'utf8';
my ($prev,$start)=(-1,0); my @r;
for my $c (0x80..0x10FFFF) {
  my $k;
  if ($c>=0xD800 && $c<=0xDFFF) { $k=0 }
  else { my $s=chr($c);
    my $old = $s=~/\p{Present_In: 8.0}/;
    my $asg = $s!~/\p{Gc=Cn}/;
    my $st = $s=~/\p{ID_Start}/; my $co = $s=~/\p{ID_Continue}/;
    if ($old && $st) {$k=1} elsif ($old && $co) {$k=2}
    elsif (!$asg) {$k=3} elsif ($st||$co) {$k=3} else {$k=0} }
  if ($k!=$prev) { push @r,[$c,$k]; $prev=$k }
}
print "// generated by tools/gen_unicode.pl from Unicode ".Unicode::UCD::UnicodeVersion()."\n";
print "pub static IDTAB: &[(u32, u8)] = &[\n";
printf "(0x%x,%d),\n",@$_ for @r; print "];\n";
