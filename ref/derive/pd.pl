use strict; use Unicode::UCD qw(prop_invmap prop_invlist prop_aliases);
for my $p (qw(gc age blk bc Bidi_M Bidi_C GCB WB SB Alpha WSpace Lower Upper Cased CI CWL CWU CWT CWCF CWCM IDS IDC XIDS XIDC Pat_Syn Pat_WS NChar Emoji EPres EMod EBase EComp ExtPict dt ccc nt DI hst Comp_Ex CE)) {
  my ($l,$m,$f,$d)=prop_invmap($p);
  unless ($l) { warn "no $p\n"; next }
  open my $o,'>',"/tmp/perldata/$p.txt";
  print $o "# $p format=$f default=$d\n";
  for my $i (0..$#$l) { my $e = $i<$#$l ? $l->[$i+1]-1 : 0x10FFFF; next if $l->[$i]>0x10FFFF; $e=0x10FFFF if $e>0x10FFFF; printf $o "%04X;%04X;%s\n",$l->[$i],$e,ref $m->[$i]?join(',',@{$m->[$i]}):$m->[$i]; }
}
my ($l,$m,$f,$d)=prop_invmap("Name_Alias");
open my $o,'>',"/tmp/perldata/alias.txt";
for my $i (0..$#$l){ my $v=$m->[$i]; next unless $v; printf $o "%04X;%s\n",$l->[$i],join('|',ref $v?@$v:$v);}
