# Runs a perl script many times without starting perl each time: the script is compiled once, then run in a fork
# for every line of standard input (tab separated: directory, stdin, stdout, stderr, arguments...; "-" for /dev/null).
# Writes the exit status of every run.
use POSIX ();
my $script = shift @ARGV;
local $/;
open(my $__fh, "<", $script) or die "$script: $!";
my $src = <$__fh>;
close $__fh;
$/ = "\n";
$src =~ s/\r\n/\n/g;
$src =~ s/^__(END|DATA)__\n.*//ms;
$^W = 1 if $src =~ /\A#!.*perl.* -w/;
$0 = $script;
eval "package main; sub __run_script { no warnings 'closure';\n#line 1 \"$script\"\n$src\n}\n1" or die $@;
$| = 1;
while (defined(my $job = <STDIN>)) {
    chomp $job;
    my ($d, $i, $o, $e, @a) = split /\t/, $job, -1;
    my $pid = fork;
    die "fork" unless defined $pid;
    if (!$pid) {
        chdir $d or POSIX::_exit(111);
        open(STDIN, "<", $i eq "-" ? "/dev/null" : $i) or POSIX::_exit(112);
        open(STDOUT, ">", $o eq "-" ? "/dev/null" : $o) or POSIX::_exit(113);
        open(STDERR, ">", $e eq "-" ? "/dev/null" : $e) or POSIX::_exit(114);
        @ARGV = @a;
        alarm 20;
        __run_script();
        exit 0;
    }
    waitpid $pid, 0;
    print(($? & 127) ? -($? & 127) : $? >> 8, "\n");
}
