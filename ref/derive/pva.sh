# property value aliases from Perl's Unicode::UCD, minus the groupings and the values later than Unicode 10.0
perl -e 'use Unicode::UCD qw(prop_value_aliases prop_values); for my $p (qw(gc bc dt gcb wb sb)){ for my $v (prop_values($p)){ my @a=prop_value_aliases($p,$v); print "$p;$a[0];$a[1]\n"}}' | grep -vE '^gc;(C|L|LC|M|N|P|S|Z);|^dt;(Non_Canon|None);|^wb;WSegSpace;'
