# Executes JSON commands from standard input using Net::NSCAng::Client.
use strict;
use warnings;
no warnings;
use JSON::PP;
use Net::NSCAng::Client ':all';

$| = 1;
my (%obj, @files);
my $json = JSON::PP->new->allow_nonref;

sub val {
    my ($v) = @_;
    return $v unless ref $v eq 'HASH';
    my $s = pack('H*', $v->{h});
    if ($v->{u}) { utf8::decode($s); utf8::upgrade($s) }
    return $s;
}

while (my $l = <STDIN>) {
    my $c = $json->decode($l);
    my ($op, $id) = ($c->{op}, $c->{id});
    my @a = map { val($_) } @{$c->{a} || []};
    my %k = map { $_ => val($c->{k}{$_}) } keys %{$c->{k} || {}};
    # keys and values, or a reference to a hash
    my @k = $c->{ref} ? ({%k}) : %k;
    my $r;
    my $alive = 1;
    eval {
        if ($op eq 'new') { $obj{$id} = Net::NSCAng::Client->new(@a, @k) }
        elsif ($op eq 'del') { delete $obj{$id} }
        elsif ($op eq 'files') { for (1 .. $a[0]) { open(my $f, '<', '/dev/null') or die; push @files, $f } }
        elsif ($op eq 'fork') {
            my $pid = fork;
            if ($pid == 0) { %obj = (); exit 0 }
            waitpid($pid, 0);
            die "status $?" if $?;
        }
        elsif ($op eq 'host_result') { $obj{$id}->host_result(@a, @k) }
        elsif ($op eq 'svc_result') { $obj{$id}->svc_result(@a, @k) }
        elsif ($op eq 'command') { $obj{$id}->command(@a) }
        elsif ($op eq 'exit') { $alive = 0 }
        1;
    } or do {
        my $e = "$@";
        utf8::encode($e) if utf8::is_utf8($e);
        $r = { r => 'err', m => unpack('H*', $e) };
    };
    $r ||= { r => 'ok' };
    print $json->encode($r), "\n";
    last unless $alive;
}
%obj = ();
exit 0;
