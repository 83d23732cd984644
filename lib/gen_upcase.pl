#!/usr/bin/perl
# Generates spec/Upcase.tla from perl's own Unicode data (independent of nt-hive's table):
# simple one-to-one uppercase mappings of BMP code points to BMP code points, for characters
# assigned up to Unicode 13 (the version the registry order of this crate is defined by).
use strict; use warnings;
use Unicode::UCD qw(prop_invmap charprop);
my @pages; my $n = 0;
my ($list, $map, $format, $default) = prop_invmap('Simple_Uppercase_Mapping');
sub suc { my ($c) = @_;
  my $i = Unicode::UCD::search_invlist($list, $c);
  my $v = $map->[$i]; return $c if $v eq '0' || $v eq $default;
  return $v + ($c - $list->[$i]); }
for my $c (0..0xffff) {
  next if $c >= 0xd800 && $c <= 0xdfff;
  my $u = suc($c);
  next if $u == $c || $u > 0xffff;
  my $age = charprop($c, 'Age'); $age =~ s/^V//; $age =~ s/_/./;
  my $uage = charprop($u, 'Age'); $uage =~ s/^V//; $uage =~ s/_/./;
  next if $age eq 'Unassigned' || $age > 13 || $uage eq 'Unassigned' || $uage > 13;
  $pages[$c >> 8]{$c & 255} = $u; $n++;
}
print "------------------------------- MODULE Upcase -------------------------------\n";
print "(* Generated by lib/gen_upcase.pl from an independent source of Unicode data. *)\n";
print "(* $n simple uppercase mappings within the Basic Multilingual Plane.          *)\n";
print "EXTENDS Integers, Sequences\n\n";
my @used;
for my $p (0..255) { next unless $pages[$p]; push @used, $p;
  my @r = map { exists $pages[$p]{$_} ? $pages[$p]{$_} : $p*256+$_ } 0..255;
  print "UpPage$p == <<\n"; 
  while (my @l = splice @r, 0, 16) { print "  ", join(",", @l), (@r ? "," : ""), "\n"; }
  print ">>\n";
}
print "\nUpPages == <<\n";
my %u = map { $_ => 1 } @used;
print join(",\n", map { my $b=$_*8; "  ".join(", ", map { $u{$_} ? "UpPage$_" : "<<>>" } $b..$b+7) } 0..31), "\n>>\n\n";
print <<'T';
(* the uppercase code unit of a code unit; surrogates and units without a mapping stay *)
Up(u) == IF u < 128 THEN IF u >= 97 /\ u <= 122 THEN u - 32 ELSE u
         ELSE LET pg == UpPages[u \div 256 + 1]
              IN IF pg = <<>> THEN u ELSE pg[(u % 256) + 1]
=============================================================================
T
